package harness

import (
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/tg123/phabrik/serialization"
)

// Custom-marshalled test types. What they write is a program of the case: the first op is the leading type byte,
// the following ops write one slot each.

const cmSlots = 6

type cmOp struct {
	K string `json:"k"`           // t: type byte of the slot, b1 b2 b4 b8 bs: fixed size binary, c: compressed uint32
	P int    `json:"p,omitempty"` // slot
}

type cmProgram struct {
	Meta  byte   `json:"m"`
	Empty bool   `json:"e,omitempty"` // the zero value is written as the empty-flagged type byte alone
	Ops   []cmOp `json:"o"`
}

var cmPrograms map[string]*cmProgram

func (p *cmProgram) mask(op cmOp) uint64 {
	switch op.K {
	case "t", "b1":
		return 0xFF
	case "b2":
		return 0xFFFF
	case "b4", "c":
		return 0xFFFFFFFF
	}
	return ^uint64(0)
}

type cmPair struct {
	A uint16
	B [6]byte
}

func (p *cmProgram) write(s serialization.Encoder, a *[cmSlots]uint64) error {
	if p.Empty && *a == [cmSlots]uint64{} {
		return s.WriteTypeMeta(serialization.FabricSerializationType(p.Meta | mEmpty))
	}
	if err := s.WriteTypeMeta(serialization.FabricSerializationType(p.Meta)); err != nil {
		return err
	}
	for _, op := range p.Ops {
		v := a[op.P]
		var err error
		switch op.K {
		case "t":
			err = s.WriteTypeMeta(serialization.FabricSerializationType(v))
		case "b1":
			err = s.WriteBinary(uint8(v))
		case "b2":
			err = s.WriteBinary(uint16(v))
		case "b4":
			err = s.WriteBinary(int32(v))
		case "b8":
			err = s.WriteBinary(&v)
		case "bs":
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			pr := cmPair{A: binary.LittleEndian.Uint16(b[:])}
			copy(pr.B[:], b[2:])
			err = s.WriteBinary(&pr)
		case "c":
			err = s.WriteCompressedUInt32(uint32(v))
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (p *cmProgram) read(meta serialization.FabricSerializationType, s serialization.Decoder, a *[cmSlots]uint64) error {
	if byte(meta) != p.Meta {
		return fmt.Errorf("custom type: got type byte %#x, want %#x", byte(meta), p.Meta)
	}
	*a = [cmSlots]uint64{}
	for _, op := range p.Ops {
		var err error
		switch op.K {
		case "t":
			var m serialization.FabricSerializationType
			m, err = s.ReadTypeMeta()
			a[op.P] = uint64(m)
		case "b1":
			var v uint8
			err = s.ReadBinary(&v)
			a[op.P] = uint64(v)
		case "b2":
			var v uint16
			err = s.ReadBinary(&v)
			a[op.P] = uint64(v)
		case "b4":
			var v int32
			err = s.ReadBinary(&v)
			a[op.P] = uint64(uint32(v))
		case "b8":
			err = s.ReadBinary(&a[op.P])
		case "bs":
			var pr cmPair
			err = s.ReadBinary(&pr)
			var b [8]byte
			binary.LittleEndian.PutUint16(b[:], pr.A)
			copy(b[2:], pr.B[:])
			a[op.P] = binary.LittleEndian.Uint64(b[:])
		case "c":
			var v uint32
			v, err = s.ReadCompressedUInt32()
			a[op.P] = uint64(v)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

type cm0 struct{ A [cmSlots]uint64 }
type cm1 struct{ A [cmSlots]uint64 }
type cm2 struct{ A [cmSlots]uint64 }

func (c *cm0) Marshal(s serialization.Encoder) error { return cmPrograms["cm0"].write(s, &c.A) }
func (c *cm0) Unmarshal(m serialization.FabricSerializationType, s serialization.Decoder) error {
	return cmPrograms["cm0"].read(m, s, &c.A)
}
func (c *cm1) Marshal(s serialization.Encoder) error { return cmPrograms["cm1"].write(s, &c.A) }
func (c *cm1) Unmarshal(m serialization.FabricSerializationType, s serialization.Decoder) error {
	return cmPrograms["cm1"].read(m, s, &c.A)
}
func (c *cm2) Marshal(s serialization.Encoder) error { return cmPrograms["cm2"].write(s, &c.A) }
func (c *cm2) Unmarshal(m serialization.FabricSerializationType, s serialization.Decoder) error {
	return cmPrograms["cm2"].read(m, s, &c.A)
}

var cmTypes = map[string]reflect.Type{
	"cm0": reflect.TypeOf(cm0{}), "cm1": reflect.TypeOf(cm1{}), "cm2": reflect.TypeOf(cm2{}),
}

// reference side
func cmEncode(e *refEncoder, k string, v *Val) {
	p := cmPrograms[k]
	zero := true
	for _, s := range v.L {
		zero = zero && s.U == 0
	}
	if p.Empty && zero {
		e.u8(p.Meta | mEmpty)
		return
	}
	e.u8(p.Meta)
	for _, op := range p.Ops {
		u := v.L[op.P].U
		switch op.K {
		case "t", "b1":
			e.u8(byte(u))
		case "b2":
			e.u16(uint16(u))
		case "b4":
			e.u32(uint32(u))
		case "b8", "bs":
			e.u64(u)
		case "c":
			e.u8(uvarintBytes(uint64(uint32(u)))...)
		}
	}
}

func cmParse(p *refParser, k string) (*Val, error) {
	pr := cmPrograms[k]
	v := (&Desc{K: k}).zero()
	m, err := p.byte()
	if err != nil {
		return nil, err
	}
	if pr.Empty && m == pr.Meta|mEmpty {
		return v, nil
	}
	if m != pr.Meta {
		return nil, fmt.Errorf("at %d: %#x, custom type byte is %#x", p.pos-1, m, pr.Meta)
	}
	for _, op := range pr.Ops {
		n := map[string]int{"t": 1, "b1": 1, "b2": 2, "b4": 4, "b8": 8, "bs": 8}[op.K]
		if n == 0 {
			if v.L[op.P].U, err = p.varint(false); err != nil {
				return nil, err
			}
			continue
		}
		b, err := p.take(n)
		if err != nil {
			return nil, err
		}
		var w [8]byte
		copy(w[:], b)
		v.L[op.P].U = binary.LittleEndian.Uint64(w[:])
	}
	return v, nil
}
