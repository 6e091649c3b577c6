// Package amf0 is a stand-in for github.com/WatchBeam/amf0, which is not
// available offline. It was written from the AMF0 specification and from how
// the repository under test calls the package; the monitors of the upper layers
// (client, server, cmd) are built against it. It is part of the trusted base of
// those checks.
package amf0

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
)

const (
	NumberMarker      byte = 0x00
	BoolMarker        byte = 0x01
	StringMarker      byte = 0x02
	ObjectMarker      byte = 0x03
	NullMarker        byte = 0x05
	UndefinedMarker   byte = 0x06
	ArrayMarker       byte = 0x08
	ObjectEndMarker   byte = 0x09
	StrictArrayMarker byte = 0x0a
	DateMarker        byte = 0x0b
	LongStringMarker  byte = 0x0c
)

const maxDepth = 64

// AmfType is any AMF0 value.
type AmfType interface {
	Native() reflect.Type
	Marker() byte
	Decode(io.Reader) error
	Encode(io.Writer) (int, error)
}

var errBadEnd = errors.New("amf0: malformed object end")

// UnknownPacketError is returned for an unsupported marker.
type UnknownPacketError struct{ Marker byte }

func (e UnknownPacketError) Error() string {
	return fmt.Sprintf("amf0: unknown packet identifier: 0x%02x", e.Marker)
}

type (
	Number     float64
	Bool       bool
	String     string
	LongString string
	Null       struct{}
	Undefined  struct{}
)

func NewNumber(f float64) *Number        { n := Number(f); return &n }
func NewBool(b bool) *Bool               { n := Bool(b); return &n }
func NewString(s string) *String         { n := String(s); return &n }
func NewLongString(s string) *LongString { n := LongString(s); return &n }
func NewNull() *Null                     { return new(Null) }
func NewUndefined() *Undefined           { return new(Undefined) }

func (n *Number) Native() reflect.Type     { return reflect.TypeOf(float64(0)) }
func (n *Bool) Native() reflect.Type       { return reflect.TypeOf(false) }
func (n *String) Native() reflect.Type     { return reflect.TypeOf("") }
func (n *LongString) Native() reflect.Type { return reflect.TypeOf("") }
func (n *Null) Native() reflect.Type       { return reflect.TypeOf(Null{}) }
func (n *Undefined) Native() reflect.Type  { return reflect.TypeOf(Undefined{}) }

func (n *Number) Marker() byte     { return NumberMarker }
func (n *Bool) Marker() byte       { return BoolMarker }
func (n *String) Marker() byte     { return StringMarker }
func (n *LongString) Marker() byte { return LongStringMarker }
func (n *Null) Marker() byte       { return NullMarker }
func (n *Undefined) Marker() byte  { return UndefinedMarker }

func (n *Number) Decode(r io.Reader) error {
	var b [8]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	*n = Number(math.Float64frombits(binary.BigEndian.Uint64(b[:])))
	return nil
}

func (n *Number) Encode(w io.Writer) (int, error) {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], math.Float64bits(float64(*n)))
	return w.Write(b[:])
}

func (n *Bool) Decode(r io.Reader) error {
	var b [1]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	*n = b[0] != 0
	return nil
}

func (n *Bool) Encode(w io.Writer) (int, error) {
	if *n {
		return w.Write([]byte{1})
	}
	return w.Write([]byte{0})
}

func readStr(r io.Reader, size int) (string, error) {
	b := make([]byte, size)
	if _, err := io.ReadFull(r, b); err != nil {
		return "", err
	}
	n := 0
	for _, x := range b {
		n = n<<8 | int(x)
	}
	if n > 1<<24 {
		return "", errors.New("amf0: string too long")
	}
	b = make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return "", err
	}
	return string(b), nil
}

func (n *String) Decode(r io.Reader) error {
	s, err := readStr(r, 2)
	if err != nil {
		return err
	}
	*n = String(s)
	return nil
}

func (n *String) Encode(w io.Writer) (int, error) { return writeStr(w, string(*n)) }

func writeStr(w io.Writer, s string) (int, error) {
	if len(s) > 0xffff {
		return 0, errors.New("amf0: string too long")
	}
	return w.Write(append([]byte{byte(len(s) >> 8), byte(len(s))}, s...))
}

func (n *LongString) Decode(r io.Reader) error {
	s, err := readStr(r, 4)
	if err != nil {
		return err
	}
	*n = LongString(s)
	return nil
}

func (n *LongString) Encode(w io.Writer) (int, error) {
	b := make([]byte, 4, 4+len(*n))
	binary.BigEndian.PutUint32(b, uint32(len(*n)))
	return w.Write(append(b, *n...))
}

func (n *Null) Decode(io.Reader) error             { return nil }
func (n *Null) Encode(io.Writer) (int, error)      { return 0, nil }
func (n *Undefined) Decode(io.Reader) error        { return nil }
func (n *Undefined) Encode(io.Writer) (int, error) { return 0, nil }

type pair struct {
	k string
	v AmfType
}

// Paired is an ordered list of key/value pairs, shared by Object and Array.
type Paired struct{ pairs []pair }

func NewPaired() *Paired { return &Paired{} }

func (p *Paired) Add(key string, v AmfType) *Paired {
	p.pairs = append(p.pairs, pair{key, v})
	return p
}

func (p *Paired) Set(key string, v AmfType) *Paired {
	for i := range p.pairs {
		if p.pairs[i].k == key {
			p.pairs[i].v = v
			return p
		}
	}
	return p.Add(key, v)
}

func (p *Paired) Get(key string) (AmfType, error) {
	for _, x := range p.pairs {
		if x.k == key {
			return x.v, nil
		}
	}
	return nil, fmt.Errorf("amf0: no such key %q", key)
}

func (p *Paired) Size() int { return len(p.pairs) }
func (p *Paired) Len() int  { return len(p.pairs) }

func (p *Paired) Each(f func(string, AmfType)) {
	for _, x := range p.pairs {
		f(x.k, x.v)
	}
}

type depthReader struct {
	io.Reader
	d int
}

func depth(r io.Reader) (*depthReader, error) {
	d, ok := r.(*depthReader)
	if !ok {
		return &depthReader{r, 1}, nil
	}
	if d.d >= maxDepth {
		return nil, errors.New("amf0: too deeply nested")
	}
	return &depthReader{d.Reader, d.d + 1}, nil
}

func (p *Paired) Decode(r io.Reader) error {
	d, err := depth(r)
	if err != nil {
		return err
	}
	for {
		k, err := readStr(d, 2)
		if err != nil {
			return err
		}
		if k == "" {
			var b [1]byte
			if _, err := io.ReadFull(d, b[:]); err != nil {
				return err
			}
			if b[0] != ObjectEndMarker {
				return errBadEnd
			}
			return nil
		}
		v, err := Decode(d)
		if err != nil {
			return err
		}
		p.Add(k, v)
	}
}

func (p *Paired) Encode(w io.Writer) (int, error) {
	t := 0
	for _, x := range p.pairs {
		n, err := writeStr(w, x.k)
		t += n
		if err != nil {
			return t, err
		}
		n, err = Encode(x.v, w)
		t += n
		if err != nil {
			return t, err
		}
	}
	n, err := w.Write([]byte{0, 0, ObjectEndMarker})
	return t + n, err
}

type Object struct{ *Paired }

func NewObject() *Object { return &Object{NewPaired()} }

func (o *Object) Native() reflect.Type { return reflect.TypeOf(Object{}) }
func (o *Object) Marker() byte         { return ObjectMarker }
func (o *Object) Decode(r io.Reader) error {
	if o.Paired == nil {
		o.Paired = NewPaired()
	}
	return o.Paired.Decode(r)
}
func (o *Object) Encode(w io.Writer) (int, error) {
	if o.Paired == nil {
		return NewPaired().Encode(w)
	}
	return o.Paired.Encode(w)
}

// Array is the ECMA (associative) array.
type Array struct{ *Paired }

func NewArray() *Array { return &Array{NewPaired()} }

func (o *Array) Native() reflect.Type { return reflect.TypeOf(Array{}) }
func (o *Array) Marker() byte         { return ArrayMarker }
func (o *Array) Decode(r io.Reader) error {
	var b [4]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	if o.Paired == nil {
		o.Paired = NewPaired()
	}
	return o.Paired.Decode(r)
}
func (o *Array) Encode(w io.Writer) (int, error) {
	if o.Paired == nil {
		o.Paired = NewPaired()
	}
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(o.Size()))
	n, err := w.Write(b[:])
	if err != nil {
		return n, err
	}
	m, err := o.Paired.Encode(w)
	return n + m, err
}

// Decode reads one marker and the value that follows it.
func Decode(r io.Reader) (AmfType, error) {
	var b [1]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return nil, err
	}
	var v AmfType
	switch b[0] {
	case NumberMarker:
		v = new(Number)
	case BoolMarker:
		v = new(Bool)
	case StringMarker:
		v = new(String)
	case LongStringMarker:
		v = new(LongString)
	case ObjectMarker:
		v = NewObject()
	case ArrayMarker:
		v = NewArray()
	case NullMarker:
		v = new(Null)
	case UndefinedMarker:
		v = new(Undefined)
	default:
		return nil, UnknownPacketError{b[0]}
	}
	if err := v.Decode(r); err != nil {
		return nil, err
	}
	return v, nil
}

// Encode writes a value preceded by its marker.
func Encode(v AmfType, w io.Writer) (int, error) {
	n, err := w.Write([]byte{v.Marker()})
	if err != nil {
		return n, err
	}
	m, err := v.Encode(w)
	return n + m, err
}
