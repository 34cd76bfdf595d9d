package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/uip/db/format/awdb"
)

// aval is a value of any type an awdb file can hold.
type aval struct {
	kind int // the type number of the format
	s    string
	f    float64
	u    uint64
	i    int32
	big  *big.Int
	keys []string
	vals []*aval
}

const (
	avString = 2
	avDouble = 3
	avBytes  = 4
	avU16    = 5
	avU32    = 6
	avMap    = 7
	avI32    = 8
	avU64    = 9
	avU128   = 10
	avSlice  = 11
	avBool   = 14
	avFloat  = 15
)

var avKinds = []int{avString, avString, avDouble, avBytes, avU16, avU32, avI32, avI32, avU64, avU64, avU128, avBool, avFloat}

var avKeys = []string{"country", "city", "City", "Names", "iso_code", "geoname_id", "Lat", "long", "is", "línea", "国家", "x", "y", "z", "A", "B", strings.Repeat("k", 30), strings.Repeat("K", 300)}

// genAval makes a value; earlier values are taken again at times, so that the
// file holds pointers to them.
func genAval(c *C, depth int, kinds []int, pool *[]*aval) *aval {
	if len(*pool) > 0 && c.P(0.2) {
		v := pick(c, *pool)
		for _, k := range kinds {
			if v.kind == k {
				return v
			}
		}
	}
	v := &aval{kind: pick(c, kinds)}
	switch v.kind {
	case avString:
		v.s = pick(c, []string{"", "a", "中国", "北京市", "x\x00y", strings.Repeat("s", 28+c.N(3)), strings.Repeat("s", 284+c.N(4)), fmt.Sprint(c.N(50))})
	case avBytes:
		v.s = pick(c, []string{"", "\x00", "\xff\xfe", strings.Repeat("\x01", 28+c.N(3)), fmt.Sprint(c.N(50))})
	case avDouble:
		v.f = pick(c, []float64{0, 1, -1.5, 120.581963, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Copysign(0, -1), 1 << 53, c.R.Float64()})
	case avFloat:
		v.f = float64(pick(c, []float32{0, 1, -1.5, 71.2163, math.MaxFloat32, math.SmallestNonzeroFloat32, c.R.Float32()}))
	case avU16:
		v.u = pick(c, []uint64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, uint64(c.N(1 << 16))})
	case avU32:
		v.u = pick(c, []uint64{0, 1, 255, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, uint64(c.R.Uint32())})
	case avU64:
		v.u = pick(c, []uint64{0, 1, 255, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, c.R.Uint64(), 1 << c.N(64)})
	case avI32:
		v.i = pick(c, []int32{0, 1, -1, 127, 128, -128, -129, 32767, -32769, math.MaxInt32, math.MinInt32, int32(c.R.Uint32())})
	case avU128:
		v.big = new(big.Int).SetUint64(c.R.Uint64())
		if c.P(0.5) {
			v.big.Lsh(v.big, uint(c.N(65)))
		}
		if c.P(0.2) {
			v.big.SetInt64(int64(c.N(3)))
		}
	case avBool:
		v.u = uint64(c.N(2))
	case avMap:
		l := append([]string{}, avKeys...)
		shuffle(c, l)
		sub := append([]int{}, avKinds...)
		if depth > 0 {
			sub = append(sub, avMap, avMap, avMap, avSlice, avSlice)
		}
		if c.P(0.4) {
			sub = []int{pick(c, sub)}
		}
		n := c.N(7)
		if c.P(0.1) {
			n = c.N(len(l))
		}
		for i := 0; i < n; i++ {
			v.keys = append(v.keys, l[i])
			v.vals = append(v.vals, genAval(c, depth-1, sub, pool))
		}
	case avSlice:
		sub := append([]int{}, avKinds...)
		if depth > 0 {
			sub = append(sub, avMap, avMap, avMap, avSlice, avSlice)
		}
		if c.P(0.7) {
			sub = []int{pick(c, sub)}
		}
		n := c.N(5)
		if c.P(0.03) {
			n = 28 + c.N(3)
			sub = []int{pick(c, avKinds)}
		}
		for i := 0; i < n; i++ {
			v.vals = append(v.vals, genAval(c, depth-1, sub, pool))
		}
	}
	if c.P(0.0005) {
		// sizes that need their longer forms
		switch v.kind {
		case avString, avBytes:
			v.s = strings.Repeat("L", 65820+c.N(3000))
		case avMap, avSlice:
			n := 256 + c.N(500)
			k := pick(c, avKinds)
			for i := len(v.vals); i < n; i++ {
				if v.kind == avMap {
					v.keys = append(v.keys, fmt.Sprintf("w%d", i))
				}
				v.vals = append(v.vals, genAval(c, 0, []int{k}, &[]*aval{}))
			}
		}
		c.Count("large_values", 1)
		return v
	}
	*pool = append(*pool, v)
	return v
}

// val writes a value, or a pointer to it where it has been written before.
func (e *awEnc) val(v *aval, at map[*aval]int) {
	if o, ok := at[v]; ok && e.c.P(0.8) {
		e.pointer(o)
		return
	}
	here := len(e.b)
	switch v.kind {
	case avString:
		if o, ok := e.strs[v.s]; ok && e.c.P(e.ptr) {
			e.pointer(o)
			return
		}
		e.strs[v.s] = here
		e.ctrl(avString, len(v.s))
		e.b = append(e.b, v.s...)
	case avBytes:
		e.ctrl(avBytes, len(v.s))
		e.b = append(e.b, v.s...)
	case avDouble:
		e.ctrl(avDouble, 8)
		e.b = binary.BigEndian.AppendUint64(e.b, math.Float64bits(v.f))
	case avFloat:
		e.ctrl(avFloat, 4)
		e.b = binary.BigEndian.AppendUint32(e.b, math.Float32bits(float32(v.f)))
	case avU16, avU32, avU64:
		e.uint(v.kind, v.u)
	case avI32:
		if v.i >= 0 && e.c.P(0.5) {
			e.uint(avI32, uint64(v.i))
		} else {
			e.ctrl(avI32, 4)
			e.b = binary.BigEndian.AppendUint32(e.b, uint32(v.i))
		}
	case avU128:
		b := v.big.Bytes()
		if len(b) < 16 && e.c.P(0.3) {
			b = append(make([]byte, 16-len(b)), b...)
		}
		e.ctrl(avU128, len(b))
		e.b = append(e.b, b...)
	case avBool:
		e.ctrl(avBool, int(v.u))
	case avMap:
		e.ctrl(avMap, len(v.keys))
		for i, k := range v.keys {
			e.str(k)
			e.val(v.vals[i], at)
		}
	case avSlice:
		e.ctrl(avSlice, len(v.vals))
		for _, x := range v.vals {
			e.val(x, at)
		}
	}
	at[v] = here
}

var (
	anyType    = reflect.TypeOf((*any)(nil)).Elem()
	bigType    = reflect.TypeOf(big.Int{})
	bytesType  = reflect.TypeOf([]byte{})
	ptrType    = reflect.TypeOf(uintptr(0))
	stringType = reflect.TypeOf("")
	intTypes   = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0))}
	floatTypes = []reflect.Type{reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0))}
	boolType   = reflect.TypeOf(false)
)

// destFor picks a Go type to decode v into; most hold it, some do not.
func destFor(c *C, v *aval, depth int) reflect.Type {
	if c.P(0.12) {
		return reflect.PointerTo(destFor(c, v, depth))
	}
	if c.P(0.1) {
		return anyType
	}
	if c.P(0.03) {
		return pick(c, []reflect.Type{stringType, boolType, floatTypes[1], intTypes[0], intTypes[9], reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{ X int }{}), reflect.TypeOf(map[int]any{}), reflect.TypeOf(map[any]any{}), reflect.TypeOf(hidden{})})
	}
	switch v.kind {
	case avString:
		return pick(c, []reflect.Type{stringType, stringType, reflect.TypeOf(named(""))})
	case avBytes:
		return pick(c, []reflect.Type{bytesType, bytesType, stringType})
	case avDouble, avFloat:
		return pick(c, []reflect.Type{floatTypes[1], floatTypes[1], floatTypes[0]})
	case avU16, avU32, avU64, avI32:
		return pick(c, intTypes)
	case avU128:
		return pick(c, []reflect.Type{bigType, reflect.PointerTo(bigType)})
	case avBool:
		return boolType
	case avSlice:
		if len(v.vals) == 0 {
			return reflect.SliceOf(pick(c, []reflect.Type{anyType, stringType, intTypes[0]}))
		}
		return reflect.SliceOf(destFor(c, pick(c, v.vals), depth+1))
	}
	if c.P(0.02) {
		return reflect.MapOf(pick(c, []reflect.Type{intTypes[0], boolType, anyType, reflect.TypeOf([2]string{})}), anyType)
	}
	if c.P(0.4) {
		var t reflect.Type
		if len(v.vals) == 0 {
			t = pick(c, []reflect.Type{anyType, stringType, intTypes[0]})
		} else {
			t = destFor(c, pick(c, v.vals), depth+1)
		}
		if c.P(0.3) {
			return reflect.MapOf(reflect.TypeOf(named("")), t)
		}
		return reflect.MapOf(stringType, t)
	}
	return structFor(c, v, depth, true)
}

type named string

func structFor(c *C, v *aval, depth int, embed bool) reflect.Type {
	if embed && c.P(0.15) {
		return pick(c, namedTypes)
	}
	var fs []reflect.StructField
	used := map[string]bool{}
	add := func(key string, t reflect.Type) {
		if key != "absent" && c.P(0.07) {
			t = ptrType
		}
		f := reflect.StructField{Type: t}
		if ok := key[0] >= 'A' && key[0] <= 'Z'; ok && !used[key] && c.P(0.5) {
			f.Name = key
			if c.P(0.3) {
				f.Tag = `json:"other"`
			}
		} else {
			f.Name = "F" + strconv.Itoa(len(fs)) + "_"
			f.Tag = reflect.StructTag(`awdb:` + strconv.Quote(key))
			if c.P(0.3) {
				f.Tag = `json:"country" ` + f.Tag
			}
		}
		used[f.Name] = true
		fs = append(fs, f)
	}
	for i, k := range v.keys {
		switch {
		case c.P(0.65):
			add(k, destFor(c, v.vals[i], depth+1))
		case k[0] >= 'A' && k[0] <= 'Z' && !used[k] && c.P(0.4):
			// a field of the key's name that is to be left alone
			used[k] = true
			fs = append(fs, reflect.StructField{Name: k, Type: destFor(c, v.vals[i], depth+1), Tag: `awdb:"-"`})
		case k[0] >= 'a' && k[0] <= 'z' && !used[k] && c.P(0.2):
			// so is one that is not exported
			used[k] = true
			f := reflect.StructField{Name: k, PkgPath: "main", Type: destFor(c, v.vals[i], depth+1)}
			if c.P(0.3) {
				f.Tag = reflect.StructTag(`awdb:` + strconv.Quote(k))
			}
			fs = append(fs, f)
			c.Count("unexported_fields", 1)
		}
	}
	if c.P(0.3) {
		add("absent", pick(c, []reflect.Type{stringType, anyType, intTypes[0], reflect.PointerTo(stringType), reflect.TypeOf([]string{})}))
	}
	if embed && c.P(0.25) {
		// StructOf is particular about embedded fields, the first one is fine
		t := structFor(c, v, depth, false)
		if c.P(0.4) {
			t = reflect.PointerTo(t)
		}
		fs = append([]reflect.StructField{{Name: "Emb", Type: t, Anonymous: true}}, fs...)
	}
	shuffleTail := fs
	if len(fs) > 0 && fs[0].Anonymous {
		shuffleTail = fs[1:]
	}
	shuffle(c, shuffleTail)
	return reflect.StructOf(fs)
}

// fieldsOf lists the fields of a struct by the key they take.
func fieldsOf(t reflect.Type) (byKey map[string]int, emb []int) {
	byKey = map[string]int{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			if f.IsExported() || f.Type.Kind() == reflect.Struct {
				// one behind a pointer cannot be made
				emb = append(emb, i)
			}
			continue
		}
		if !f.IsExported() {
			// nobody but its package may set it
			continue
		}
		k := f.Name
		if tag := f.Tag.Get("awdb"); tag != "" {
			k = tag
		}
		if k != "-" {
			byKey[k] = i
		}
	}
	return byKey, emb
}

// fits tells whether v can be kept in a t without loss.
func fits(t reflect.Type, v *aval) bool {
	switch {
	case t == ptrType || t == anyType:
		return true
	case t.Kind() == reflect.Pointer:
		return fits(t.Elem(), v)
	}
	z := reflect.New(t).Elem()
	isInt := t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64
	isUint := t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64
	switch v.kind {
	case avString:
		return t.Kind() == reflect.String
	case avBytes:
		return t == bytesType || t.Kind() == reflect.String
	case avDouble, avFloat:
		return t.Kind() == reflect.Float64 || t.Kind() == reflect.Float32 && !z.OverflowFloat(v.f)
	case avU16, avU32, avU64:
		return isUint && !z.OverflowUint(v.u) || isInt && v.u <= math.MaxInt64 && !z.OverflowInt(int64(v.u))
	case avI32:
		return isInt && !z.OverflowInt(int64(v.i)) || isUint && v.i >= 0 && !z.OverflowUint(uint64(v.i))
	case avU128:
		return t == bigType
	case avBool:
		return t.Kind() == reflect.Bool
	case avSlice:
		if t.Kind() != reflect.Slice {
			return false
		}
		for _, x := range v.vals {
			if !fits(t.Elem(), x) {
				return false
			}
		}
		return true
	}
	switch t.Kind() {
	case reflect.Map:
		if t.Key().Kind() != reflect.String {
			return false
		}
		for _, x := range v.vals {
			if !fits(t.Elem(), x) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if t == bigType {
			return false
		}
		byKey, emb := fieldsOf(t)
		for _, i := range emb {
			if !fits(t.Field(i).Type, v) {
				return false
			}
		}
		for i, k := range v.keys {
			if f, ok := byKey[k]; ok && !fits(t.Field(f).Type, v.vals[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// differs compares what was decoded with the value it stands for.
func differs(r *awdb.Reader, v *aval, got reflect.Value, path string) string {
	bad := func(f string, a ...any) string { return path + ": " + fmt.Sprintf(f, a...) }
	t := got.Type()
	switch {
	case t == ptrType:
		var x any
		if err := r.Decode(uintptr(got.Uint()), &x); err != nil {
			return bad("the offset %d captured for it does not decode: %v", got.Uint(), err)
		}
		return differs(r, v, reflect.ValueOf(&x).Elem(), path+"(offset)")
	case t.Kind() == reflect.Pointer || t == anyType:
		if got.IsNil() {
			return bad("nothing was stored")
		}
		return differs(r, v, got.Elem(), path)
	}
	switch v.kind {
	case avString, avBytes:
		var s string
		switch {
		case t.Kind() == reflect.String:
			s = got.String()
		case t == bytesType:
			s = string(got.Bytes())
		default:
			return bad("a %v for a string", t)
		}
		if s != v.s {
			return bad("%q instead of %q", clip(s, 60), clip(v.s, 60))
		}
	case avDouble, avFloat:
		if !got.CanFloat() {
			return bad("a %v for a float", t)
		}
		want := v.f
		if t.Kind() == reflect.Float32 {
			want = float64(float32(want))
		}
		if got.Float() != want {
			return bad("%v instead of %v", got.Float(), want)
		}
	case avU16, avU32, avU64:
		if got.CanUint() && got.Uint() != v.u || got.CanInt() && (got.Int() < 0 || uint64(got.Int()) != v.u) {
			return bad("%v instead of %d", got.Interface(), v.u)
		}
		if !got.CanInt() && !got.CanUint() {
			return bad("a %v for an integer", t)
		}
	case avI32:
		if got.CanInt() && got.Int() != int64(v.i) || got.CanUint() && (v.i < 0 || got.Uint() != uint64(v.i)) {
			return bad("%v instead of %d", got.Interface(), v.i)
		}
		if !got.CanInt() && !got.CanUint() {
			return bad("a %v for an integer", t)
		}
	case avU128:
		b, ok := got.Interface().(big.Int)
		if !ok {
			return bad("a %v for a 128 bit integer", t)
		}
		if b.Cmp(v.big) != 0 {
			return bad("%v instead of %v", &b, v.big)
		}
	case avBool:
		if t.Kind() != reflect.Bool {
			return bad("a %v for a bool", t)
		}
		if got.Bool() != (v.u == 1) {
			return bad("%v instead of its opposite", got.Bool())
		}
	case avSlice:
		if t.Kind() != reflect.Slice {
			return bad("a %v for a list", t)
		}
		if got.Len() != len(v.vals) {
			return bad("%d entries instead of %d", got.Len(), len(v.vals))
		}
		for i, x := range v.vals {
			if s := differs(r, x, got.Index(i), fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
	case avMap:
		switch t.Kind() {
		case reflect.Map:
			if got.Len() != len(v.keys) {
				return bad("%d keys instead of %d", got.Len(), len(v.keys))
			}
			for i, k := range v.keys {
				x := got.MapIndex(reflect.ValueOf(k).Convert(t.Key()))
				if !x.IsValid() {
					return bad("key %q is missing", clip(k, 40))
				}
				if s := differs(r, v.vals[i], x, path+"."+clip(k, 40)); s != "" {
					return s
				}
			}
		case reflect.Struct:
			byKey, emb := fieldsOf(t)
			filled := map[int]bool{}
			for _, i := range emb {
				filled[i] = true
				if s := differs(r, v, got.Field(i), path+".(embedded)"); s != "" {
					return s
				}
			}
			for i, k := range v.keys {
				f, ok := byKey[k]
				if !ok {
					continue
				}
				filled[f] = true
				if s := differs(r, v.vals[i], got.Field(f), path+"."+clip(k, 40)); s != "" {
					return s
				}
			}
			for i := 0; i < t.NumField(); i++ {
				if !filled[i] && !got.Field(i).IsZero() {
					return bad("field %s of the result was set to %v although the data does not have it", t.Field(i).Name, got.Field(i))
				}
			}
		default:
			return bad("a %v for a map", t)
		}
	}
	return ""
}

func isTypeError(err error) bool {
	var u awdb.UnmarshalTypeError
	return errors.As(err, &u)
}

// avText shows a value in messages and evidence.
func avText(v *aval) string {
	var b bytes.Buffer
	var f func(v *aval, d int)
	f = func(v *aval, d int) {
		if b.Len() > 600 {
			return
		}
		switch v.kind {
		case avString, avBytes:
			fmt.Fprintf(&b, "%q", clip(v.s, 20))
		case avDouble, avFloat:
			fmt.Fprintf(&b, "f%v", v.f)
		case avI32:
			fmt.Fprintf(&b, "i%d", v.i)
		case avU128:
			fmt.Fprintf(&b, "b%v", v.big)
		case avMap, avSlice:
			b.WriteString("[")
			for i, x := range v.vals {
				if v.kind == avMap {
					fmt.Fprintf(&b, "%s:", clip(v.keys[i], 12))
				}
				f(x, d+1)
				b.WriteString(" ")
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "u%d", v.u)
		}
	}
	f(v, 0)
	return b.String()
}

type inner struct {
	City any
	X    any `awdb:"x"`
	y    any
}
type innerMap map[string]any
type innerPtr struct{ City string }

// hidden has fields that only its package may set.
type hidden struct {
	country string
	city    *any `awdb:"city"`
	is      []any
	z       map[string]any
	inner
	innerMap
	*innerPtr
	A any
}

// namedTypes are distinct types of one name.
var namedTypes = []reflect.Type{
	reflect.TypeOf(hidden{}),
	func() reflect.Type {
		type record struct {
			City    any
			Country any `awdb:"country"`
			X, Y    any `awdb:"x"`
			A       any
			B       any `awdb:"city"`
		}
		return reflect.TypeOf(record{})
	}(),
	func() reflect.Type {
		type record struct {
			A       any `awdb:"country"`
			B       any `awdb:"A"`
			Country any `awdb:"国家"`
			City    any `awdb:"City"`
			Lat     any
		}
		return reflect.TypeOf(record{})
	}(),
	func() reflect.Type {
		type record struct {
			Lat  any `awdb:"long"`
			Long any `awdb:"Lat"`
			City any `awdb:"-"`
			A, B any
		}
		return reflect.TypeOf(record{})
	}(),
	func() reflect.Type {
		type Record struct {
			B any `awdb:"B"`
			A any `awdb:"city"`
		}
		return reflect.TypeOf(Record{})
	}(),
	func() reflect.Type {
		type Record struct {
			A any `awdb:"B"`
			B any `awdb:"A"`
			C any `awdb:"is"`
		}
		return reflect.TypeOf(Record{})
	}(),
}

// scribble edits what was handed out as far as it can be edited.
func scribble(x reflect.Value) {
	switch x.Kind() {
	case reflect.Pointer:
		if b, ok := x.Interface().(*big.Int); ok && b != nil {
			for i, w := range b.Bits() {
				b.Bits()[i] = ^w
			}
			return
		}
		if !x.IsNil() {
			scribble(x.Elem())
		}
	case reflect.Interface:
		if !x.IsNil() {
			scribble(x.Elem())
		}
	case reflect.Slice:
		if x.Type() == bytesType {
			for i := range x.Bytes() {
				x.Bytes()[i] ^= 0xff
			}
			return
		}
		for i := 0; i < x.Len(); i++ {
			scribble(x.Index(i))
			if x.Index(i).CanSet() {
				x.Index(i).SetZero()
			}
		}
	case reflect.Map:
		if x.IsNil() {
			return
		}
		for _, k := range x.MapKeys() {
			scribble(x.MapIndex(k))
			x.SetMapIndex(k, reflect.Zero(x.Type().Elem()))
		}
		x.SetMapIndex(reflect.ValueOf("added").Convert(x.Type().Key()), reflect.Zero(x.Type().Elem()))
	case reflect.Struct:
		if x.Type() == bigType {
			b := x.Interface().(big.Int)
			for i, w := range b.Bits() {
				b.Bits()[i] = ^w
			}
			return
		}
		for i := 0; i < x.NumField(); i++ {
			if f := x.Type().Field(i); f.IsExported() || f.Anonymous && f.Type.Kind() == reflect.Struct {
				scribble(x.Field(i))
			}
		}
	}
}
