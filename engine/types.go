package main

// Type layout and interning of types.

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KIface
	KSlice
	KMap
	KFunc
	KChan
	KStruct
	KArray
	KTuple
	KUnsafePtr
	KOther
)

type TInfo struct {
	t      types.Type
	kind   Kind
	w      uint8 // bits
	signed bool
	slots  int
	scalar bool // all slots are scalars (bool,int,float)
	elem   *TInfo
	n      int64 // array length
	fields []*TInfo
	offs   []int
	isFlt  bool
}

var typeMu sync.RWMutex
var typeByPtr = map[types.Type]*TInfo{}
var typeCanon typeutil.Map

func TI(t types.Type) *TInfo {
	typeMu.RLock()
	ti := typeByPtr[t]
	typeMu.RUnlock()
	if ti != nil {
		return ti
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	return tiLocked(t)
}

func tiLocked(t types.Type) *TInfo {
	if ti := typeByPtr[t]; ti != nil {
		return ti
	}
	if c := typeCanon.At(t); c != nil {
		ti := c.(*TInfo)
		typeByPtr[t] = ti
		return ti
	}
	ti := &TInfo{t: t, slots: 1}
	typeCanon.Set(t, ti)
	typeByPtr[t] = ti
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			ti.kind, ti.w, ti.scalar = KBool, 1, true
		case info&types.IsInteger != 0:
			ti.kind, ti.scalar = KInt, true
			ti.signed = info&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32:
				ti.w = 32
			default:
				ti.w = 64
			}
		case info&types.IsFloat != 0:
			ti.kind, ti.scalar, ti.w = KFloat, true, 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case info&types.IsComplex != 0:
			ti.kind = KComplex
		case info&types.IsString != 0:
			ti.kind = KString
		case u.Kind() == types.UnsafePointer:
			ti.kind = KUnsafePtr
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind = KPtr
	case *types.Interface:
		ti.kind = KIface
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tiLocked(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.elem = tiLocked(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Chan:
		ti.kind = KChan
	case *types.Struct:
		ti.kind = KStruct
		ti.scalar = true
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := tiLocked(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, off)
			off += f.slots
			ti.scalar = ti.scalar && f.scalar
		}
		ti.slots = off
	case *types.Array:
		ti.kind = KArray
		ti.elem = tiLocked(u.Elem())
		ti.n = u.Len()
		ti.slots = int(u.Len()) * ti.elem.slots
		ti.scalar = ti.elem.scalar
	case *types.Tuple:
		ti.kind = KTuple
	default:
		ti.kind = KOther
	}
	return ti
}

func (t *TInfo) agg() bool { return t.kind == KStruct || t.kind == KArray }

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
