// Package encoding is the struct marshalling half of the amf0 stand-in.
package encoding

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/WatchBeam/amf0"
)

var amfType = reflect.TypeOf((*amf0.AmfType)(nil)).Elem()

// Marshal encodes every field of the struct v (or *v) in order. Like any
// encoder built on bytes.Buffer, it may return a slice with spare capacity.
func Marshal(v interface{}) ([]byte, error) {
	buf := bytes.NewBuffer(make([]byte, 0, 512))
	rv := reflect.Indirect(reflect.ValueOf(v))
	if rv.Kind() != reflect.Struct {
		return nil, fmt.Errorf("amf0/encoding: cannot marshal %T", v)
	}
	for i := 0; i < rv.NumField(); i++ {
		a, err := toAmf(rv.Type().Field(i).Type, rv.Field(i))
		if err != nil {
			return nil, err
		}
		if _, err := amf0.Encode(a, buf); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

func toAmf(t reflect.Type, f reflect.Value) (amf0.AmfType, error) {
	switch t.Kind() {
	case reflect.String:
		if f.Len() > 0xffff {
			return amf0.NewLongString(f.String()), nil
		}
		return amf0.NewString(f.String()), nil
	case reflect.Float64, reflect.Float32:
		return amf0.NewNumber(f.Float()), nil
	case reflect.Bool:
		return amf0.NewBool(f.Bool()), nil
	case reflect.Ptr:
		if f.IsNil() {
			return amf0.NewNull(), nil
		}
		if a, ok := f.Interface().(amf0.AmfType); ok {
			return a, nil
		}
	case reflect.Struct:
		if reflect.PtrTo(t).Implements(amfType) {
			p := reflect.New(t)
			p.Elem().Set(f)
			return p.Interface().(amf0.AmfType), nil
		}
	}
	return nil, fmt.Errorf("amf0/encoding: unsupported field type %v", t)
}

// Unmarshal decodes one value per field of the struct *v, in order. A null or
// undefined value leaves its field alone.
func Unmarshal(r io.Reader, v interface{}) error {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr || rv.Elem().Kind() != reflect.Struct {
		return fmt.Errorf("amf0/encoding: cannot unmarshal into %T", v)
	}
	rv = rv.Elem()
	for i := 0; i < rv.NumField(); i++ {
		a, err := amf0.Decode(r)
		if err != nil {
			return err
		}
		if err := fromAmf(rv.Field(i), a); err != nil {
			return err
		}
	}
	return nil
}

func fromAmf(f reflect.Value, a amf0.AmfType) error {
	switch a.(type) {
	case *amf0.Null, *amf0.Undefined:
		return nil
	}
	if !f.CanSet() {
		return nil
	}
	switch f.Kind() {
	case reflect.String:
		switch s := a.(type) {
		case *amf0.String:
			f.SetString(string(*s))
			return nil
		case *amf0.LongString:
			f.SetString(string(*s))
			return nil
		}
	case reflect.Float64:
		if n, ok := a.(*amf0.Number); ok {
			f.SetFloat(float64(*n))
			return nil
		}
	case reflect.Bool:
		if b, ok := a.(*amf0.Bool); ok {
			f.SetBool(bool(*b))
			return nil
		}
	case reflect.Ptr:
		if reflect.TypeOf(a) == f.Type() {
			f.Set(reflect.ValueOf(a))
			return nil
		}
	case reflect.Struct:
		if reflect.TypeOf(a).Elem() == f.Type() {
			f.Set(reflect.ValueOf(a).Elem())
			return nil
		}
	}
	return fmt.Errorf("amf0/encoding: cannot store %T in %v", a, f.Type())
}
