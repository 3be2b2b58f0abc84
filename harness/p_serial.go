package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"

	"github.com/tg123/phabrik/serialization"
	"pgregory.net/rapid"
)

type serCase struct {
	D *Desc                 `json:"d"`
	V *Val                  `json:"v"`
	W *Val                  `json:"w,omitempty"` // what the destination held before
	A bool                  `json:"a,omitempty"` // its pointers, maps and slices of the same type are shared
	P map[string]*cmProgram `json:"p,omitempty"`
}

func genSer(t *rapid.T, o genOpts, top []string) serCase {
	c := serCase{}
	if o.cm {
		c.P = map[string]*cmProgram{}
		for _, k := range []string{"cm0", "cm1", "cm2"} {
			c.P[k] = genProgram(t)
		}
	}
	budget := intn(t, "budget", 1, 22)
	switch {
	case len(top) > 0 && oneIn(t, "top", 12):
		c.D = &Desc{K: pick(t, "topkind", top)}
	case o.named && oneIn(t, "topnamed", 8):
		c.D = namedDesc(pick(t, "name", sortedKeys(namedTypes)))
	default:
		c.D = genStruct(t, o, 0, &budget, false)
	}
	size := 40
	c.V = genVal(t, c.D, o, &size, false)
	if o.cm {
		maskVal(c.D, c.V, c.P)
		dedupMaps(c.D, c.V)
	}
	return c
}

// libMarshal encodes with the code under test.
func libMarshal(x *X, d *Desc, v *Val, side string) []byte {
	rv := reflect.New(d.goType(side))
	d.toGo(v, side, rv.Elem())
	b, err := serialization.Marshal(rv.Interface())
	if err != nil {
		x.Failf("Marshal of a supported value: %v", err)
	}
	return b
}

func libUnmarshal(x *X, d *Desc, b []byte, side string, into reflect.Value) *Val {
	in := append([]byte(nil), b...)
	if err := serialization.Unmarshal(in, into.Interface()); err != nil {
		x.Failf("Unmarshal of a valid encoding: %v\nbytes % x", err, clipBytes(b, 300))
	}
	if !bytes.Equal(in, b) {
		x.Failf("Unmarshal changed its input")
	}
	for i := range in {
		in[i] ^= 0x55 // the value is the caller's, whatever becomes of the input
	}
	return d.fromGo(side, into.Elem())
}

func clipBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// together: several values encoded before any is decoded, and decoded before any is looked at, or all at once
type togetherCase struct {
	C   []serCase `json:"c"`
	Par bool      `json:"p"`
	N   int       `json:"n"`
}

func genTogether(t *rapid.T) togetherCase {
	c := togetherCase{Par: coin(t, "par"), N: intn(t, "rounds", 1, 4)}
	for i, n := 0, intn(t, "n", 2, 5); i < n; i++ {
		c.C = append(c.C, genSer(t, genOpts{maps: true, named: true}, []string{"guid", "nodeid", "range"}))
	}
	return c
}

func runTogether(x *X, c togetherCase) {
	n := len(c.C)
	enc, dec := make([][]byte, n), make([]reflect.Value, n)
	fail := make([]string, n)
	encode := func(i int) {
		rv := reflect.New(c.C[i].D.goType(""))
		c.C[i].D.toGo(c.C[i].V, "", rv.Elem())
		b, err := serialization.Marshal(rv.Interface())
		if err != nil {
			fail[i] = fmt.Sprint("Marshal of a supported value: ", err)
		}
		enc[i] = b
	}
	decode := func(i int) {
		dec[i] = reflect.New(c.C[i].D.goType(""))
		if err := serialization.Unmarshal(enc[i], dec[i].Interface()); err != nil && fail[i] == "" {
			fail[i] = fmt.Sprint("Unmarshal of an encoding made while others were made: ", err)
		}
	}
	each := func(f func(i int)) {
		if !c.Par {
			for i := range c.C {
				f(i)
			}
			return
		}
		var wg sync.WaitGroup
		start := make(chan int)
		for i := range c.C {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						fail[i] = fmt.Sprint("panic: ", r)
					}
				}()
				<-start
				f(i)
			}()
		}
		close(start)
		wg.Wait()
	}
	for r := 0; r < c.N; r++ {
		each(encode)
		each(decode)
		for i, s := range c.C {
			if fail[i] != "" {
				x.Failf("%d values together (concurrently: %v): %s", n, c.Par, fail[i])
			}
			if d := s.D.diff("value", s.D.expect(s.V), s.D.fromGo("", dec[i].Elem())); d != "" {
				x.Failf("%d values together (concurrently: %v): value %d differs: %s", n, c.Par, i, d)
			}
		}
	}
	rich := 0
	for _, s := range c.C {
		if s.V.nonZero() >= 2 {
			rich++
		}
	}
	if rich >= 2 {
		x.NonTrivial()
	}
	if c.Par {
		x.Label("concurrent")
	}
}

func setPrograms(p map[string]*cmProgram) { cmPrograms = p }

func runRoundTrip(x *X, c serCase) {
	setPrograms(c.P)
	b := libMarshal(x, c.D, c.V, "")
	into := reflect.New(c.D.goType(""))
	if c.W != nil {
		c.D.toGo(c.W, "", into.Elem())
		if c.A {
			shareRefs(into.Elem(), map[reflect.Type]reflect.Value{})
		}
	}
	got := libUnmarshal(x, c.D, b, "", into)
	if s := c.D.diff("value", c.D.expect(c.V), got); s != "" {
		x.Failf("decoded value differs from the encoded one: %s\nbytes % x", s, clipBytes(b, 300))
	}
	// the input value and the encoding are not changed by decoding, and encoding again still decodes the same
	b2, err := serialization.Marshal(into.Interface())
	if err != nil {
		x.Failf("Marshal of the decoded value: %v", err)
	}
	got = libUnmarshal(x, c.D, b2, "", reflect.New(c.D.goType("")))
	if s := c.D.diff("value", c.D.expect(c.V), got); s != "" {
		x.Failf("second round trip differs: %s", s)
	}
	if c.V.nonZero() >= 2 {
		x.NonTrivial()
	}
	for _, k := range kindsOf(c.D) {
		x.Label(k)
	}
}

// shareRefs makes all pointers, maps and slices of one type in v refer to the same thing.
func shareRefs(v reflect.Value, first map[reflect.Type]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice:
		if v.IsNil() {
			return
		}
		if f, ok := first[v.Type()]; ok {
			if v.CanSet() {
				v.Set(f)
			}
			return
		}
		if v.CanSet() {
			f := reflect.New(v.Type()).Elem()
			f.Set(v)
			first[v.Type()] = f
		}
		if v.Kind() == reflect.Ptr {
			shareRefs(v.Elem(), first)
		}
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				shareRefs(v.Index(i), first)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			shareRefs(v.Field(i), first)
		}
	}
}

func kindsOf(d *Desc) []string {
	m := map[string]int{}
	var walk func(d *Desc)
	walk = func(d *Desc) {
		m[d.K] = 1
		for _, c := range append([]*Desc{d.Elem, d.Key}, d.Fields...) {
			if c != nil {
				walk(c)
			}
		}
	}
	walk(d)
	return sortedKeys(m)
}

func init() {
	full := genOpts{maps: true, named: true}
	tops := []string{"guid", "nodeid", "range"}
	register(&Prop{
		ID: "S01",
		Parts: []Part{
			part("roundtrip", 150000, 3000000, "the value has at least two non-zero scalars", func(t *rapid.T) serCase {
				return genSer(t, full, tops)
			}, runRoundTrip),
			part("dirty", 100000, 2000000, "the value has at least two non-zero scalars; the destination already holds another value", func(t *rapid.T) serCase {
				c := genSer(t, full, tops)
				size := 40
				c.W = genVal(t, c.D, full, &size, false)
				c.A = coin(t, "share")
				return c
			}, runRoundTrip),
			part("large", 400, 10000, "the object is longer than 64 KiB", genLarge, runLarge),
			part("together", 12000, 300000, "two of the values have at least two non-zero scalars each", genTogether, runTogether),
		},
		Assumptions: []string{"strings are valid Unicode", "map keys are comparable values without pointers and NaN", "float32 NaNs are compared as a class", "embedded fields are structs"},
	})

	register(&Prop{
		ID: "S02",
		Parts: []Part{
			part("encode", 130000, 3000000, "the value has at least two non-zero scalars", func(t *rapid.T) serCase {
				return genSer(t, full, tops)
			}, func(x *X, c serCase) {
				setPrograms(c.P)
				b := libMarshal(x, c.D, c.V, "")
				got, err := refUnmarshal(c.D, b, "")
				if err != nil {
					x.Failf("encoding is not the protocol's: %v\nbytes % x", err, clipBytes(b, 400))
				}
				if s := c.D.diff("value", c.D.expect(c.V), got); s != "" {
					x.Failf("encoding describes another value: %s\nbytes % x", s, clipBytes(b, 400))
				}
				if ref := refMarshal(c.D, got, ""); !bytes.Equal(ref, b) {
					x.Failf("encoding differs from the protocol's:\n got % x\nwant % x", clipBytes(b, 400), clipBytes(ref, 400))
				}
				if c.V.nonZero() >= 2 {
					x.NonTrivial()
				}
			}),
			part("decode", 130000, 3000000, "the value has at least two non-zero scalars", func(t *rapid.T) serCase {
				o := full
				o.refX = true
				return genSer(t, o, tops)
			}, func(x *X, c serCase) {
				setPrograms(c.P)
				b := refMarshal(c.D, c.V, "")
				got := libUnmarshal(x, c.D, b, "", reflect.New(c.D.goType("")))
				if s := c.D.diff("value", c.D.expect(c.V), got); s != "" {
					x.Failf("conforming bytes decode to another value: %s\nbytes % x", s, clipBytes(b, 400))
				}
				if c.V.nonZero() >= 2 {
					x.NonTrivial()
				}
			}),
			part("integers", 60000, 1000000, "the integer is not zero", genIntCase, runIntCase),
			part("large", 250, 6000, "the object is longer than 64 KiB", genLarge, runLargeLayout),
		},
		Assumptions: []string{"the reference encoder and strict parser in ref_value.go state the layout", "float32 NaNs are quiet", "unknown trailing bytes of an object stand for fields of a newer type"},
	})

	register(&Prop{
		ID: "S03",
		Parts: []Part{
			part("skew", 250000, 5000000, "a field exists on one side only and two scalars are not zero", func(t *rapid.T) serCase {
				return genSer(t, genOpts{maps: true, only: true}, nil)
			}, func(x *X, c serCase) {
				setPrograms(c.P)
				b := libMarshal(x, c.D, c.V, "w")
				got := libUnmarshal(x, c.D, b, "r", reflect.New(c.D.goType("r")))
				if s := c.D.diff("value", c.D.expect(c.V), got); s != "" {
					x.Failf("a reader of another version gets a different value: %s\nbytes % x", s, clipBytes(b, 400))
				}
				w, r := countOnly(c.D)
				if w+r > 0 && c.V.nonZero() >= 2 {
					x.NonTrivial()
				}
				if w > 0 {
					x.Label("writer newer")
				}
				if r > 0 {
					x.Label("reader newer")
				}
			}),
			part("large", 300, 6000, "the object is longer than 64 KiB", genLarge, runLarge),
			part("mixed", 120000, 3000000, "an object has fewer or more fields than its type and two scalars are not zero", func(t *rapid.T) serCase {
				o := full
				o.refX, o.cut = true, true
				return genSer(t, o, nil)
			}, func(x *X, c serCase) {
				setPrograms(c.P)
				b := refMarshal(c.D, c.V, "")
				got := libUnmarshal(x, c.D, b, "", reflect.New(c.D.goType("")))
				if s := c.D.diff("value", c.D.expect(c.V), got); s != "" {
					x.Failf("objects of several versions are read wrongly: %s\nbytes % x", s, clipBytes(b, 400))
				}
				if c.V.versions() > 0 && c.V.nonZero() >= 2 {
					x.NonTrivial()
				}
			}),
		},
		Assumptions: []string{"fields are added at the end of an object (inside an embedded struct only when it is the last field both versions share), not in a map key"},
	})

	register(&Prop{
		ID: "S06",
		Parts: []Part{
			part("compose", 200000, 5000000, "a custom type with at least one op occurs and two scalars are not zero", func(t *rapid.T) serCase {
				o := full
				o.cm = true
				o.named = false
				c := genSer(t, o, []string{"cm0", "cm1", "guid"})
				return c
			}, func(x *X, c serCase) {
				setPrograms(c.P)
				b := libMarshal(x, c.D, c.V, "")
				got := libUnmarshal(x, c.D, b, "", reflect.New(c.D.goType("")))
				if s := c.D.diff("value", c.D.expect(c.V), got); s != "" {
					x.Failf("structure with custom types differs after a round trip: %s\nbytes % x", s, clipBytes(b, 300))
				}
				ref, err := refUnmarshal(c.D, b, "")
				if err != nil {
					x.Failf("bytes of custom types are not those written: %v\nbytes % x", err, clipBytes(b, 400))
				}
				if s := c.D.diff("value", c.D.expect(c.V), ref); s != "" {
					x.Failf("bytes of custom types are not those written: %s\nbytes % x", s, clipBytes(b, 300))
				}
				for _, k := range kindsOf(c.D) {
					if p := c.P[k]; p != nil && len(p.Ops) > 0 && c.V.nonZero() >= 2 {
						x.NonTrivial()
					}
				}
			}),
		},
		Assumptions: []string{"a custom type's first type byte has the empty bit clear unless its value is zero, and is not the scope end marker"},
	})
}

// versions counts the objects written by an older or newer version.
func (v *Val) versions() int {
	if v == nil {
		return 0
	}
	n := 0
	if v.Cut > 0 || len(v.Pad) > 0 {
		n++
	}
	for _, e := range v.L {
		n += e.versions()
	}
	return n
}

func countOnly(d *Desc) (w, r int) {
	switch d.Only {
	case "w":
		w++
	case "r":
		r++
	}
	for _, c := range append([]*Desc{d.Elem, d.Key}, d.Fields...) {
		if c != nil {
			a, b := countOnly(c)
			w, r = w+a, r+b
		}
	}
	return
}

// integers: every width next to sentinels, many values at once
type intCase struct {
	K string   `json:"k"`
	V []uint64 `json:"v"`
}

func genIntCase(t *rapid.T) intCase {
	c := intCase{K: pick(t, "k", []string{"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"})}
	for i, n := 0, intn(t, "n", 1, 12); i < n; i++ {
		c.V = append(c.V, genBits(t, bitsOf(c.K), c.K[0] == 'i'))
	}
	return c
}

func runIntCase(x *X, c intCase) {
	d := &Desc{K: "struct", Fields: []*Desc{{K: "slice", Elem: &Desc{K: c.K}}}}
	v := &Val{L: []*Val{{}}}
	for _, u := range c.V {
		v.L[0].L = append(v.L[0].L, &Val{U: u})
		if u != 0 {
			x.NonTrivial()
		}
	}
	want := refMarshal(d, v, "")
	got := libMarshal(x, d, v, "")
	if !bytes.Equal(got, want) {
		x.Failf("%s encode: got % x want % x", c.K, got, want)
	}
	back := libUnmarshal(x, d, want, "", reflect.New(d.goType("")))
	if s := d.diff("value", v, back); s != "" {
		x.Failf("%s decode: %s", c.K, s)
	}
}

// maxSize is the size of the largest value a single input byte can make the decoder allocate.
func maxSize(t reflect.Type, depth int) uintptr {
	m := t.Size()
	if depth > 8 {
		return m
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice:
		m = max(m, maxSize(t.Elem(), depth+1))
	case reflect.Map:
		m = max(m, maxSize(t.Elem(), depth+1), maxSize(t.Key(), depth+1), t.Elem().Size()+t.Key().Size())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			m = max(m, maxSize(t.Field(i).Type, depth+1))
		}
	}
	return m
}

// numFields is how many field descriptors one object of the type (or a type inside) makes the decoder list.
func numFields(t reflect.Type, depth int) int {
	n := 0
	if depth > 8 {
		return n
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice:
		n = numFields(t.Elem(), depth+1)
	case reflect.Map:
		n = max(numFields(t.Elem(), depth+1), numFields(t.Key(), depth+1)) + 2
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			n += 1 + numFields(t.Field(i).Type, depth+1)
		}
	}
	return n
}

func allocBound(t reflect.Type, n int) uint64 {
	return 256<<10 + uint64(n)*(8<<10+16*uint64(maxSize(t, 0))+128*uint64(numFields(t, 0)))
}

func describe(err error) string {
	if err == nil {
		return "accepted"
	}
	return fmt.Sprint(err)
}
