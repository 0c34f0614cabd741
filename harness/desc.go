package main

import (
	"bytes"
	"reflect"
	"sort"

	"github.com/golang/protobuf/proto"
)

// sortUnknown orders the unknown fields (custom options) of every message by
// field number, keeping the order of equal numbers, so that only the relative
// order of different options is ignored.
func sortUnknown(m proto.Message) { sortUnknownValue(reflect.ValueOf(m)) }

func sortUnknownValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			sortUnknownValue(v.Elem())
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			sortUnknownValue(v.Index(i))
		}
	case reflect.Struct:
		if _, isOpts := v.Type().FieldByName("XXX_InternalExtensions"); isOpts && v.CanAddr() {
			m := v.Addr().Interface().(proto.Message)
			raw, err := proto.Marshal(m)
			must(err)
			m.Reset()
			if len(raw) > 0 {
				v.FieldByName("XXX_unrecognized").SetBytes(sortFields(raw))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "XXX_unrecognized" {
				if b := v.Field(i).Bytes(); len(b) > 0 {
					v.Field(i).SetBytes(sortFields(b))
				}
				continue
			}
			if v.Field(i).CanSet() {
				sortUnknownValue(v.Field(i))
			}
		}
	}
}

func sortFields(b []byte) []byte {
	type rec struct {
		num uint64
		raw []byte
	}
	var recs []rec
	in := b
	for len(in) > 0 {
		tag, n := proto.DecodeVarint(in)
		if n == 0 {
			return b
		}
		l := n
		switch tag & 7 {
		case 0:
			_, k := proto.DecodeVarint(in[n:])
			l += k
		case 1:
			l += 8
		case 5:
			l += 4
		case 2:
			s, k := proto.DecodeVarint(in[n:])
			l += k + int(s)
		default:
			return b
		}
		if l > len(in) {
			return b
		}
		recs = append(recs, rec{tag >> 3, in[:l]})
		in = in[l:]
	}
	sort.SliceStable(recs, func(i, j int) bool {
		if recs[i].num != recs[j].num {
			return recs[i].num < recs[j].num
		}
		// vopt.*_agg: several occurrences set different fields of one message
		if n := recs[i].num; n >= 50000 && n < 51000 && n%100 == 7 {
			return bytes.Compare(recs[i].raw, recs[j].raw) < 0
		}
		return false
	})
	var out []byte
	for _, r := range recs {
		out = append(out, r.raw...)
	}
	return out
}
