//go:build go1.21

// Package models replaces standard-library functions that work by reflection while the symbolic executor
// runs (errors.Is, fmt, encoding/binary, tabwriter, net). It is never used natively.
package models

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"text/tabwriter"

	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// RuntimeError is the value of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

// RuntimeError marks it as a runtime.Error.
func (e RuntimeError) RuntimeError() {}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target)
}

func is(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	return as(err, target)
}

func as(err error, target any) bool {
	for {
		if nd.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && as(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

func Errorf(format string, a ...any) error {
	s := nd.Format(format, a)
	var errs []error
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i+1 < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] >= '0' && format[i] <= '9' || format[i] == '.') {
			i++
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(a) {
			if e, ok := a[n].(error); ok {
				errs = append(errs, e)
			}
		}
		n++
	}
	switch len(errs) {
	case 0:
		return errors.New(s)
	case 1:
		return &wrapError{s, errs[0]}
	}
	return &wrapErrors{s, errs}
}

func Sprintf(format string, a ...any) string { return nd.Format(format, a) }
func Sprint(a ...any) string                 { return nd.FormatLn(a) }
func Sprintln(a ...any) string               { return nd.FormatLn(a) + "\n" }

func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(nd.Format(format, a)))
}
func Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(nd.FormatLn(a))) }
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(nd.FormatLn(a) + "\n")) }
func Printf(format string, a ...any) (int, error) { return len(format), nil }
func Print(a ...any) (int, error)                 { return 0, nil }
func Println(a ...any) (int, error)               { return 0, nil }
func Appendf(b []byte, format string, a ...any) []byte {
	return append(b, nd.Format(format, a)...)
}
func LogPrintf(format string, a ...any) {}
func LogPrintln(a ...any)               {}

type binErr struct{ s string }

func (e *binErr) Error() string { return e.s }

func isBig(order any) bool {
	b, ok := order.(interface{ Uint16([]byte) uint16 })
	if !ok {
		panic("byte order is not modelled")
	}
	return b.Uint16([]byte{1, 0}) == 256
}

func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	n := nd.BinSize(data)
	if n < 0 {
		return &binErr{"binary.Read: invalid type"}
	}
	bs := make([]byte, n)
	if _, err := io.ReadFull(r, bs); err != nil {
		return err
	}
	nd.BinDecode(bs, isBig(order), data)
	return nil
}

func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	if nd.BinSize(data) < 0 {
		return &binErr{"binary.Write: some values are not fixed-sized"}
	}
	_, err := w.Write(nd.BinEncode(data, isBig(order)))
	return err
}

func BinarySize(data any) int { return nd.BinSize(data) }

func BinaryAppend(buf []byte, order binary.AppendByteOrder, data any) ([]byte, error) {
	if nd.BinSize(data) < 0 {
		return nil, &binErr{"binary.Append: some values are not fixed-sized"}
	}
	return append(buf, nd.BinEncode(data, isBig(order))...), nil
}

func BinaryEncode(buf []byte, order binary.ByteOrder, data any) (int, error) {
	n := nd.BinSize(data)
	if n < 0 {
		return 0, &binErr{"binary.Encode: some values are not fixed-sized"}
	}
	if len(buf) < n {
		return 0, &binErr{"buffer too small"}
	}
	copy(buf, nd.BinEncode(data, isBig(order)))
	return n, nil
}

func BinaryDecode(buf []byte, order binary.ByteOrder, data any) (int, error) {
	n := nd.BinSize(data)
	if n < 0 {
		return 0, &binErr{"binary.Decode: invalid type"}
	}
	if len(buf) < n {
		return 0, &binErr{"buffer too small"}
	}
	nd.BinDecode(buf[:n], isBig(order), data)
	return n, nil
}

// TabWrite collects the text; cells are not aligned.
func TabWrite(b *tabwriter.Writer, buf []byte) (int, error) {
	p := nd.FieldPtr(b, "buf").(*[]byte)
	*p = append(*p, buf...)
	return len(buf), nil
}

// TabFlush passes the text on.
func TabFlush(b *tabwriter.Writer) error {
	p := nd.FieldPtr(b, "buf").(*[]byte)
	out := *nd.FieldPtr(b, "output").(*io.Writer)
	t := *p
	*p = nil
	if len(t) == 0 {
		return nil
	}
	_, err := out.Write(t)
	return err
}

// Sockets are provided by the harness.
var Listen func(network, address string) (net.PacketConn, error)

func ListenPacket(network, address string) (net.PacketConn, error) { return Listen(network, address) }

func ListenUDP(network string, laddr *net.UDPAddr) (*net.UDPConn, error) {
	panic("net.ListenUDP is not modelled")
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	return nil, errors.New("net.ResolveUDPAddr is not modelled")
}
