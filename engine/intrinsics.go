package main

import (
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/encoding/protowire"
)

func ret(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

// findIntrinsic returns the engine model of fn, or nil when its real code is executed.
func (e *Eng) findIntrinsic(fn *ssa.Function) intrinsic {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := fn.String()
	if strings.HasPrefix(fn.Name(), "v") && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		if h, ok := harnessAPI[fn.Name()]; ok && strings.HasSuffix(e.L.fset.Position(fn.Pos()).Filename, "zz_verif_rt.go") {
			return h
		}
	}
	if m := e.L.model(name, e.hpkg); m != nil && e.cfgInt("nomodel:"+m.Name(), 0) == 0 {
		return func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, _ *ssa.Function) []Outcome {
			e.note("modelled by harness code: " + name)
			return e.call(st, m, args, nil, cc)
		}
	}
	if h, ok := intrinsics[name]; ok {
		return h
	}
	// proto enum descriptors
	if fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type()
		if ei := e.L.enumOf(rt); ei != nil {
			switch fn.Name() {
			case "Descriptor":
				return func(e *Eng, st *State, args []Value, _ *ssa.CallCommon, _ *ssa.Function) []Outcome {
					return ret(st, Iface{nativeType, &Native{"enumDesc", ei}})
				}
			case "String":
				return func(e *Eng, st *State, args []Value, _ *ssa.CallCommon, _ *ssa.Function) []Outcome {
					return ret(st, e.opaqueStr("enum", nil))
				}
			}
		}
		if fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/proto/gen/") {
			switch fn.Name() {
			case "String":
				return func(e *Eng, st *State, args []Value, _ *ssa.CallCommon, _ *ssa.Function) []Outcome {
					return ret(st, e.opaqueStr("msg", nil))
				}
			}
		}
	}
	return nil
}

var nativeType types.Type = types.NewNamed(types.NewTypeName(0, nil, "native", nil), types.NewStruct(nil, nil), nil)

// model finds the harness function that stands for a library function, that of the harness's own package first.
func (L *Loader) model(name string, own *ssa.Package) *ssa.Function {
	k := "vm_" + strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, name)
	if own != nil {
		if f := own.Func(k); f != nil {
			return f
		}
	}
	return L.models[k]
}

func (e *Eng) opaqueErr(st *State, tag string) Value {
	t := e.L.errType
	if t == nil {
		panic(engErr("errors package not loaded"))
	}
	id := e.alloc(st, t.Underlying().(*types.Pointer).Elem(), 1, "error")
	e.setSlot(st, id, 0, e.opaqueStr("err:"+tag, nil))
	return Iface{t, Ptr{obj: id}}
}

func reflIface(v Value) Iface {
	if a, ok := v.(*Agg); ok && len(a.slots) == 3 {
		if x, ok := a.slots[1].(Iface); ok {
			return x
		}
	}
	panic(engErr("reflect.Value not from ValueOf"))
}

func noop(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	return ret(st, nil)
}

func constRet(f func(e *Eng) Value) intrinsic {
	return func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return ret(st, f(e))
	}
}

// presence word bits
func presBit(e *Eng, num *Term) *Term {
	if !num.IsConst() {
		panic(engErr("symbolic presence index"))
	}
	return e.c.Const(32, 1<<(num.val%32))
}

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"fmt.Errorf": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			tag := "fmt"
			if s, ok := args[0].(*Str); ok {
				if c, ok := s.constant(); ok {
					tag = c
				}
			}
			return ret(st, e.opaqueErr(st, tag))
		},
		"errors.New": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			id := e.alloc(st, e.L.errType.Underlying().(*types.Pointer).Elem(), 1, "error")
			e.setSlot(st, id, 0, args[0])
			return ret(st, Iface{e.L.errType, Ptr{obj: id}})
		},
		"errors.Join": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			s := e.resolve(st, args[0]).(Slice)
			n := e.conc(st, s.len)
			any := e.c.fls
			for i := 0; i < n; i++ {
				v := e.load(st, Ptr{obj: s.obj, off: s.off + i}, types.Universe.Lookup("error").Type())
				any = e.c.Or(any, e.c.Not(e.equal(st, v, Iface{}, nil)))
			}
			if e.conc2(st, any) {
				return ret(st, e.opaqueErr(st, "join"))
			}
			return ret(st, Iface{})
		},
		"fmt.Sprintf": sprintf,
		"fmt.Sprint": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.opaqueStr("sprint", nil))
		},
		"fmt.Println": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, Tuple{e.c.Int(0), Iface{}})
		},
		"fmt.Printf": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, Tuple{e.c.Int(0), Iface{}})
		},
		"fmt.Fprintf": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, Tuple{e.c.Int(0), Iface{}})
		},
		"fmt.Fprintln": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, Tuple{e.c.Int(0), Iface{}})
		},

		"(google.golang.org/protobuf/internal/impl.Export).SetPresent": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			b := presBit(e, args[2].(*Term))
			u32 := types.Typ[types.Uint32]
			w := e.load(st, args[1], u32).(*Term)
			e.store(st, args[1], e.c.BOr(w, b), nil)
			return ret(st, nil)
		},
		"(google.golang.org/protobuf/internal/impl.Export).ClearPresent": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			b := presBit(e, args[2].(*Term))
			w := e.load(st, args[1], types.Typ[types.Uint32]).(*Term)
			e.store(st, args[1], e.c.BAnd(w, e.c.BNot(b)), nil)
			return ret(st, nil)
		},
		"(google.golang.org/protobuf/internal/impl.Export).Present": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			b := presBit(e, args[2].(*Term))
			w := e.load(st, args[1], types.Typ[types.Uint32]).(*Term)
			return ret(st, e.c.Not(e.c.Eq(e.c.BAnd(w, b), e.c.Const(32, 0))))
		},
		"google.golang.org/protobuf/proto.HasExtension": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			alts, num, _ := e.extArgs(st, args)
			r := e.c.fls
			for _, a := range alts {
				if len(a.v.(*Native).v.(*EnumVal).Opts[num]) > 0 {
					r = e.c.Or(r, a.g)
				}
			}
			if len(alts) > 1 {
				// the alternatives are exhaustive
				all := true
				for _, a := range alts {
					all = all && len(a.v.(*Native).v.(*EnumVal).Opts[num]) > 0
				}
				if all {
					r = e.c.tru
				}
			}
			return ret(st, r)
		},
		"google.golang.org/protobuf/proto.GetExtension": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			alts, num, et := e.extArgs(st, args)
			var r Value
			for i := len(alts) - 1; i >= 0; i-- {
				v := e.extValue(st, alts[i].v.(*Native).v.(*EnumVal), num, et)
				if r == nil {
					r = v
				} else {
					r = e.mergeVal(alts[i].g, v, r)
				}
			}
			return ret(st, r)
		},
		"google.golang.org/protobuf/proto.Clone": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.cloneVal(st, args[0], nil))
		},
		"google.golang.org/protobuf/proto.Equal": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.ifaceMsgEqual(st, args[0], args[1]))
		},

		"internal/bytealg.MakeNoZero": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			n := args[0].(*Term)
			return ret(st, e.makeSlice(st, types.Typ[types.Uint8], n, n, "nozero"))
		},
		"internal/bytealg.IndexByte":       indexByte,
		"internal/bytealg.IndexByteString": indexByte,
		"internal/bytealg.Equal": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.strEq(st, e.bytesToStr(st, args[0]).(*Str), e.bytesToStr(st, args[1]).(*Str)))
		},
		"bytes.Equal": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.bytesEq(st, args[0], args[1]))
		},
		"bytes.Trim": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			if e.isOpaqueBytes(st, args[0]) {
				k := "trim:" + e.obj(st, args[0].(Slice).obj).tag + valueKey(args[1])
				return ret(st, e.opaqueBytes(st, e.opaqueKeyed(k)))
			}
			exact := e.cfgInt("exacttext", 0)
			if x, ok := args[0].(Slice); ok && x.obj != 0 && exact != 1 && !(x.len.IsConst() && int(x.len.val) <= exact) {
				s, ok := e.bytesToStr(st, x).(*Str)
				if _, k := s.constant(); ok && !k && s.rope == nil {
					e.note("trimming of symbolic text gives unknown text that is a function of the bytes (no longer than them)")
					return ret(st, e.opaqueBytes(st, e.opaqueMax("trim:"+valueKey(s)+valueKey(args[1]), s.len)))
				}
			}
			return e.callReal(st, fn, args, cc)
		},
		"unicode/utf8.ValidString": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			s := e.resolve(st, args[0]).(*Str)
			if s.opaque != "" {
				if _, ok := e.cacheVals["utf8:"+s.opaque]; ok {
					return ret(st, e.c.tru)
				}
				return ret(st, e.c.Var("valid:"+valueKey(s), 0))
			}
			return ret(st, e.validUTF8(s.bytes, s.len))
		},
		"unicode/utf8.Valid": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			s := e.bytesToStr(st, args[0]).(*Str)
			if s.opaque != "" {
				if _, ok := e.cacheVals["utf8:"+s.opaque]; ok {
					return ret(st, e.c.tru)
				}
				return ret(st, e.c.Var("valid:"+valueKey(s), 0))
			}
			return ret(st, e.validUTF8(s.bytes, s.len))
		},
		"strings.ToValidUTF8": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			s := e.resolve(st, args[0]).(*Str)
			if _, ok := s.constant(); ok {
				return e.callReal(st, fn, args, cc)
			}
			e.note("strings.ToValidUTF8 of symbolic text gives an opaque valid string")
			return ret(st, e.validOpaque("valid:"+valueKey(s)))
		},
		"(*golang.org/x/text/encoding.Decoder).String": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return e.charmapDecode(st, args, cc, fn)
		},
		"(*golang.org/x/text/encoding/charmap.Charmap).NewDecoder": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			// keep the charmap identity in the decoder's first slot
			dt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			id := e.alloc(st, dt, 1, "decoder")
			e.setSlot(st, id, 0, Iface{types.NewPointer(types.Typ[types.Int]), args[0]})
			return ret(st, Ptr{obj: id})
		},
		"(*sync.Mutex).Lock": noop, "(*sync.Mutex).Unlock": noop, "(*sync.RWMutex).Lock": noop, "(*sync.RWMutex).Unlock": noop,
		"(*sync.RWMutex).RLock": noop, "(*sync.RWMutex).RUnlock": noop,
		"runtime.KeepAlive": noop, "runtime.GC": noop,
		"(*sync.Once).Do": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			p := e.resolve(st, args[0]).(Ptr)
			o := e.obj(st, p.obj)
			k := 0
			// first integer slot is the done flag
			for ; ; k++ {
				if _, ok := o.get(p.off + k).(*Term); ok {
					break
				}
			}
			d := o.get(p.off + k).(*Term)
			if d.IsConst() && d.val != 0 {
				return ret(st, nil)
			}
			e.setSlot(st, p.obj, p.off+k, e.c.Const(d.w, 1))
			f := e.resolve(st, args[1]).(*Closure)
			var outs []Outcome
			for _, o := range e.call(st, f.fn, nil, f.binds, nil) {
				o.ret = nil
				outs = append(outs, o)
			}
			return outs
		},
		// reflect.Value of a concrete dynamic type: the interface is kept in the pointer slot
		"reflect.ValueOf": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, &Agg{[]Value{nilPtr, e.resolve(st, args[0]), e.c.Const(64, 0)}})
		},
		"(reflect.Value).IsValid": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.c.Bool(reflIface(args[0]).typ != nil))
		},
		"(reflect.Value).Kind": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			k := uint64(0)
			if t := reflIface(args[0]).typ; t != nil {
				switch t.Underlying().(type) {
				case *types.Pointer:
					k = uint64(reflect.Pointer)
				case *types.Slice:
					k = uint64(reflect.Slice)
				case *types.Struct:
					k = uint64(reflect.Struct)
				case *types.Map:
					k = uint64(reflect.Map)
				default:
					panic(engErr("reflect kind of " + t.String()))
				}
			}
			return ret(st, e.c.Const(64, k))
		},
		"(reflect.Value).IsNil": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			x := reflIface(args[0])
			if _, ok := x.typ.Underlying().(*types.Pointer); !ok {
				panic(engErr("reflect IsNil of " + x.typ.String()))
			}
			return ret(st, e.equal(st, x.val, nilPtr, x.typ))
		},
		"internal/abi.NoEscape": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, args[0])
		},
		"internal/stringslite.Clone": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, args[0])
		},
		"strings.Clone": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, args[0])
		},

		"(*math/big.Int).SetBytes": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			p := e.resolve(st, args[0]).(Ptr)
			s := e.resolve(st, args[1]).(Slice)
			bs, ok := e.bytesOf(st, s)
			if !ok {
				n := e.conc(st, s.len)
				s.len = e.c.Int(n)
				bs, _ = e.bytesOf(st, s)
			}
			nb := e.newBytes(st, bs, "bigint")
			e.setSlot(st, p.obj, p.off, e.c.fls)
			e.setSlot(st, p.obj, p.off+1, nb)
			return ret(st, p)
		},
		"(*math/big.Int).Bytes":     bigBytes,
		"(*math/big.Int).FillBytes": bigFill,
		"(*math/big.Int).Exp":       bigExp,
		"(*math/big.Int).Sign": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			z := e.isZero(e.bigOf(st, args[0]))
			return ret(st, e.c.Ite(z, e.c.Int(0), e.c.Int(1)))
		},
		"(*math/big.Int).BitLen": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			bs := e.bigOf(st, args[0])
			r := e.c.Int(0)
			for i := len(bs) - 1; i >= 0; i-- {
				base := (len(bs) - 1 - i) * 8
				n := e.c.Int(0)
				for k := 0; k < 8; k++ {
					bit := e.c.Eq(e.c.Extract(bs[i], uint8(k), 1), e.c.Const(1, 1))
					n = e.c.Ite(bit, e.c.Int(base+k+1), n)
				}
				r = e.c.Ite(e.c.Eq(bs[i], e.c.Const(8, 0)), r, n)
			}
			return ret(st, r)
		},
		"(*math/big.Int).Cmp": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			a, b := e.bigOf(st, args[0]), e.bigOf(st, args[1])
			lt, eq := e.bigLess(a, b), e.bigEq(a, b)
			return ret(st, e.c.Ite(eq, e.c.Int(0), e.c.Ite(lt, e.c.Int(-1), e.c.Int(1))))
		},
		"crypto/sha1.Sum":                               hashFn("sha1", 20),
		"crypto/sha256.Sum256":                          hashFn("sha256", 32),
		"crypto/sha512.Sum384":                          hashFn("sha384", 48),
		"crypto/sha512.Sum512":                          hashFn("sha512", 64),
		"crypto/ecdsa.Verify":                           ecdsaVerify,
		"github.com/keybase/go-crypto/brainpool.P256r1": curve("bp256"), "github.com/keybase/go-crypto/brainpool.P384r1": curve("bp384"),
		"github.com/keybase/go-crypto/brainpool.P512r1": curve("bp512"), "crypto/elliptic.P256": curve("p256"),
		"crypto/elliptic.P384": curve("p384"), "crypto/elliptic.P521": curve("p521"),
	}
}

func curve(n string) intrinsic {
	return func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return ret(st, Iface{nativeType, &Native{"curve", n}})
	}
}

// callReal executes fn's real body bypassing the intrinsic table.
func (e *Eng) callReal(st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) []Outcome {
	old := e.fnIntr[fn]
	e.fnIntr[fn] = nil
	defer func() { e.fnIntr[fn] = old }()
	return e.call(st, fn, args, nil, cc)
}

func indexByte(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	var s *Str
	if x, ok := args[0].(*Str); ok {
		s = x
	} else {
		s = e.bytesToStr(st, args[0]).(*Str)
	}
	if s.opaque != "" || s.rope != nil {
		panic(engErr("IndexByte on opaque"))
	}
	r := e.c.Const(64, ^uint64(0))
	for i := len(s.bytes) - 1; i >= 0; i-- {
		hit := e.c.And(e.c.Ult(e.c.Int(i), s.len), e.c.Eq(s.bytes[i], args[1].(*Term)))
		r = e.c.Ite(hit, e.c.Int(i), r)
	}
	return ret(st, r)
}

func sprintf(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	f, ok := args[0].(*Str)
	if !ok {
		return ret(st, e.opaqueStr("sprintf", nil))
	}
	fs, ok := f.constant()
	if !ok {
		return ret(st, e.opaqueStr("sprintf", nil))
	}
	va, ok := args[1].(Slice)
	if !ok || !va.len.IsConst() {
		return ret(st, e.opaqueStr("sprintf", nil))
	}
	var goArgs []interface{}
	allConst := true
	var terms []*Term
	for i := 0; i < int(va.len.val); i++ {
		v := e.load(st, Ptr{obj: va.obj, off: va.off + i}, types.NewInterfaceType(nil, nil))
		ifc, ok := v.(Iface)
		if !ok {
			allConst = false
			continue
		}
		switch x := ifc.val.(type) {
		case *Term:
			terms = append(terms, x)
			if b, okb := ifc.typ.(*types.Basic); okb && x.IsConst() && x.w > 0 {
				if isSigned(b) {
					goArgs = append(goArgs, sext64(x.val, x.w))
				} else {
					goArgs = append(goArgs, x.val)
				}
			} else {
				allConst = false
			}
		case *Str:
			if s, ok := x.constant(); ok {
				goArgs = append(goArgs, s)
			} else {
				allConst = false
			}
		default:
			allConst = false
		}
	}
	if allConst {
		return ret(st, e.constStr(fmt.Sprintf(fs, goArgs...)))
	}
	if fs == "%d" && len(terms) == 1 && va.len.val == 1 {
		ifc := e.load(st, Ptr{obj: va.obj, off: va.off}, types.NewInterfaceType(nil, nil)).(Iface)
		if b, ok := ifc.typ.(*types.Basic); ok && !isSigned(b) {
			return ret(st, e.decStr(terms[0]))
		} else if ok {
			return e.formatDec(st, terms[0])
		}
	}
	if min, upper, ok := hexVerb(fs); ok && len(terms) == 1 && va.len.val == 1 {
		ifc := e.load(st, Ptr{obj: va.obj, off: va.off}, types.NewInterfaceType(nil, nil)).(Iface)
		if b, ok := ifc.typ.(*types.Basic); ok && !isSigned(b) && terms[0].w > 0 {
			return e.formatHex(st, terms[0], min, upper)
		}
	}
	return ret(st, e.opaqueStr("sprintf", nil))
}

// ---- opaque byte buffers ----

func (e *Eng) isOpaqueBytes(st *State, v Value) bool {
	s, ok := v.(Slice)
	return ok && s.obj != 0 && strings.HasPrefix(e.obj(st, s.obj).tag, "opaque:")
}

// opaqueMax is opaqueKeyed with a bound on the length.
func (e *Eng) opaqueMax(key string, max *Term) *Str {
	if v, ok := e.cacheVals["o"+key]; ok {
		return v.(*Str)
	}
	r := e.opaqueStr("keyed", nil)
	n := r.len
	r.len = e.c.Ite(e.c.Ule(n, max), n, max)
	e.cacheVals["o"+key] = r
	return r
}

func (e *Eng) opaqueBytes(st *State, s *Str) Value {
	o := &Object{own: st.heap.own, id: e.newID(), tag: "opaque:" + s.opaque, typ: types.Typ[types.Uint8]}
	e.cacheVals["ob"+s.opaque] = s
	st.heap.put(o)
	return Slice{obj: o.id, esz: 1, len: s.len, cap: s.len}
}

func (e *Eng) bytesEq(st *State, a, b Value) *Term {
	if u, ok := a.(*Union); ok {
		r := e.c.fls
		for _, al := range u.alts {
			r = e.c.Or(r, e.c.And(al.g, e.bytesEq(st, al.v, b)))
		}
		return r
	}
	if u, ok := b.(*Union); ok {
		r := e.c.fls
		for _, al := range u.alts {
			r = e.c.Or(r, e.c.And(al.g, e.bytesEq(st, a, al.v)))
		}
		return r
	}
	x, y := a.(Slice), b.(Slice)
	if x == y {
		return e.c.tru
	}
	if x.len.IsConst() && y.len.IsConst() && x.len.val != y.len.val {
		return e.c.fls
	}
	sx, sy := e.bytesToStr(st, x).(*Str), e.bytesToStr(st, y).(*Str)
	if sx.rope != nil || sy.rope != nil {
		return e.ropeEq(st, sx, sy)
	}
	return e.strEq(st, sx, sy)
}

// ropeEq compares byte sequences of symbolic length: syntactic normal forms or bounded by 64 cells.
func (e *Eng) ropeEq(st *State, a, b *Str) *Term {
	ra, rb := a.rope, b.rope
	if ra == nil {
		ra = &Rope{segs: []Seg{{bytes: a.bytes, len: a.len}}, len: a.len}
	}
	if rb == nil {
		rb = &Rope{segs: []Seg{{bytes: b.bytes, len: b.len}}, len: b.len}
	}
	if len(ra.segs) == 1 && len(rb.segs) == 1 && len(ra.wr) == 0 && len(rb.wr) == 0 && ra.segs[0].arr != nil && ra.segs[0].arr == rb.segs[0].arr && ra.segs[0].shift == rb.segs[0].shift {
		return e.c.Eq(ra.len, rb.len)
	}
	n := min(ra.len.hi, rb.len.hi)
	if n > 512 {
		// equality at one arbitrary index: exact when asserted (any differing
		// index refutes it), too weak when assumed
		e.note("equality of long byte sequences is decided at an arbitrary index")
		ka, kb := valueKey(a), valueKey(b)
		if ka > kb {
			ka, kb = kb, ka
		}
		i := e.c.Var("eqidx:"+ka+"="+kb, 64)
		return e.c.And(e.c.Eq(ra.len, rb.len), e.c.Or(e.c.Ule(ra.len, i), e.c.Eq(e.ropeGet(ra, i), e.ropeGet(rb, i))))
	}
	r := e.c.Eq(ra.len, rb.len)
	for i := 0; i < int(n); i++ {
		r = e.c.And(r, e.c.Or(e.c.Ule(ra.len, e.c.Int(i)), e.c.Eq(e.ropeGet(ra, e.c.Int(i)), e.ropeGet(rb, e.c.Int(i)))))
	}
	return r
}

// validUTF8 is the DFA of UTF-8 well-formedness over the first n bytes.
func (e *Eng) validUTF8(bs []*Term, n *Term) *Term {
	c := e.c
	rng := func(b *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(c.Const(8, lo), b), c.Ule(b, c.Const(8, hi)))
	}
	// states: 0 start, 1 one more, 2 two more, 3 three more, 4 after E0, 5 after ED, 6 after F0, 7 after F4
	var next [8]*Term
	for s := range next {
		next[s] = c.Bool(s == 0)
	}
	for i := len(bs) - 1; i >= 0; i-- {
		b := bs[i]
		var cur [8]*Term
		end := c.Ule(n, c.Int(i))
		st := []func() *Term{
			func() *Term {
				r := c.And(c.Ult(b, c.Const(8, 0x80)), next[0])
				r = c.Or(r, c.And(rng(b, 0xC2, 0xDF), next[1]))
				r = c.Or(r, c.And(c.Eq(b, c.Const(8, 0xE0)), next[4]))
				r = c.Or(r, c.And(c.Or(rng(b, 0xE1, 0xEC), rng(b, 0xEE, 0xEF)), next[2]))
				r = c.Or(r, c.And(c.Eq(b, c.Const(8, 0xED)), next[5]))
				r = c.Or(r, c.And(c.Eq(b, c.Const(8, 0xF0)), next[6]))
				r = c.Or(r, c.And(rng(b, 0xF1, 0xF3), next[3]))
				return c.Or(r, c.And(c.Eq(b, c.Const(8, 0xF4)), next[7]))
			},
			func() *Term { return c.And(rng(b, 0x80, 0xBF), next[0]) },
			func() *Term { return c.And(rng(b, 0x80, 0xBF), next[1]) },
			func() *Term { return c.And(rng(b, 0x80, 0xBF), next[2]) },
			func() *Term { return c.And(rng(b, 0xA0, 0xBF), next[1]) },
			func() *Term { return c.And(rng(b, 0x80, 0x9F), next[1]) },
			func() *Term { return c.And(rng(b, 0x90, 0xBF), next[2]) },
			func() *Term { return c.And(rng(b, 0x80, 0x8F), next[2]) },
		}
		for s := range cur {
			cur[s] = c.Ite(end, c.Bool(s == 0), st[s]())
		}
		next = cur
	}
	return next[0]
}

// validOpaque is an unknown string of valid UTF-8 that is a function of key.
func (e *Eng) validOpaque(key string) *Str {
	s := e.opaqueKeyed(key)
	e.cacheVals["utf8:"+s.opaque] = true
	return s
}

// charmapDecode models encoding.Decoder.String for charmap decoders.
func (e *Eng) charmapDecode(st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	s := e.resolve(st, args[1]).(*Str)
	d := e.resolve(st, args[0]).(Ptr)
	f, ok := e.obj(st, d.obj).get(d.off).(Iface)
	if !ok || f.typ == nil {
		return e.callReal(st, fn, args, cc)
	}
	limit := e.cfgInt("exactcm", 0)
	if _, konst := s.constant(); !konst && (s.opaque != "" || s.rope != nil || !s.len.IsConst() || int(s.len.val) > limit) {
		e.note("charmap decoding of long text gives an opaque valid string")
		return ret(st, Tuple{e.validOpaque("charmap:" + valueKey(f.val) + valueKey(s)), Iface{}})
	}
	// exact: build the string by splitting on the output length of every byte
	cmV := f.val
	n := int(s.len.val)
	var rec func(st *State, i int, acc []*Term) []Outcome
	type path struct {
		st  *State
		acc []*Term
	}
	cur := []path{{st, nil}}
	dec := func(st *State, cmv Value, b *Term) (ln *Term, data [3]*Term) {
		cm := e.resolve(st, cmv).(Ptr)
		ct := fn.Pkg.Prog.ImportedPackage("golang.org/x/text/encoding/charmap").Type("Charmap").Type()
		l := e.layout(ct)
		su := ct.Underlying().(*types.Struct)
		off := -1
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == "decode" {
				off = l.foff[i]
			}
		}
		p := Ptr{obj: cm.obj, off: cm.off + off, sym: e.c.Zext(b, 64), stride: 4, count: 256}
		if b.IsConst() {
			p = Ptr{obj: cm.obj, off: cm.off + off + int(b.val)*4}
		}
		o := e.obj(st, cm.obj)
		ln = e.loadSlot(st, o, p, 0).(*Term)
		for k := 0; k < 3; k++ {
			data[k] = e.loadSlot(st, o, p, k+1).(*Term)
		}
		return
	}
	_ = rec
	cm0 := e.resolve(st, cmV)
	for i := 0; i < n; i++ {
		var nx []path
		for _, p := range cur {
			ln, data := dec(p.st, cm0, s.bytes[i])
			asc := e.c.Ult(s.bytes[i], e.c.Const(8, 0x80))
			ln = e.c.Ite(asc, e.c.Const(ln.w, 1), ln)
			data[0] = e.c.Ite(asc, s.bytes[i], data[0])
			rest := p.st
			for L := 1; L <= 3 && rest != nil; L++ {
				yes, no := e.branch(rest, e.c.Eq(ln, e.c.Const(ln.w, uint64(L))))
				if yes != nil {
					nx = append(nx, path{yes, append(p.acc[:len(p.acc):len(p.acc)], data[:L]...)})
				}
				rest = no
			}
		}
		// merge paths with equal output length
		by := map[int]*path{}
		var order []int
		for _, p := range nx {
			k := len(p.acc)
			if q, ok := by[k]; ok {
				m, sel := e.mergeStates(q.st, p.st)
				acc := make([]*Term, k)
				for j := range acc {
					acc[j] = e.c.Ite(sel, q.acc[j], p.acc[j])
				}
				*q = path{m, acc}
			} else {
				pp := p
				by[k] = &pp
				order = append(order, k)
			}
		}
		cur = nil
		for _, k := range order {
			cur = append(cur, *by[k])
		}
	}
	var outs []Outcome
	for _, p := range cur {
		outs = append(outs, Outcome{st: p.st, ret: Tuple{&Str{bytes: p.acc, len: e.c.Int(len(p.acc))}, Iface{}}})
	}
	return outs
}

// ---- proto reflection on enums ----

func (e *Eng) nativeInvoke(st *State, nv Value, m string, args []Value) []Outcome {
	if u, ok := nv.(*Union); ok {
		var r Value
		for i := len(u.alts) - 1; i >= 0; i-- {
			n, ok := u.alts[i].v.(*Native)
			if !ok || n.kind != "enumVal" {
				panic(engErr("method " + m + " on a union of natives"))
			}
			os := e.nativeInvoke(st, n, m, args)
			if r == nil {
				r = os[0].ret
			} else {
				r = e.mergeVal(u.alts[i].g, os[0].ret, r)
			}
		}
		return ret(st, r)
	}
	n := nv.(*Native)
	nat := func(k string, v interface{}) []Outcome { return ret(st, Iface{nativeType, &Native{k, v}}) }
	switch n.kind {
	case "enumDesc":
		ei := n.v.(*EnumInfo)
		switch m {
		case "Values":
			return nat("enumVals", ei)
		case "FullName", "Name":
			return ret(st, e.constStr(ei.FullName))
		}
	case "enumVals":
		ei := n.v.(*EnumInfo)
		switch m {
		case "Len":
			return ret(st, e.c.Int(len(ei.Vals)))
		case "Get":
			i := e.conc(st, args[0].(*Term))
			if i < 0 || i >= len(ei.Vals) {
				return []Outcome{{st: st, panic: "enum value index out of range"}}
			}
			return nat("enumVal", ei.Vals[i])
		case "ByNumber":
			t := args[0].(*Term)
			var outs []Outcome
			rest := st
			if t.IsConst() {
				for _, v := range ei.Vals {
					if uint64(uint32(v.Num)) == t.val {
						return nat("enumVal", v)
					}
				}
				return ret(st, Iface{})
			}
			any := e.c.fls
			var alts []Alt
			for _, v := range ei.Vals {
				g := e.c.Eq(t, e.c.Const(t.w, uint64(uint32(v.Num))))
				if g.IsFalse() {
					continue
				}
				any = e.c.Or(any, g)
				alts = append(alts, Alt{g, &Native{"enumVal", v}})
			}
			yes, no := e.branch(rest, any)
			if yes != nil {
				var v Value = &Union{alts}
				if len(alts) == 1 {
					v = alts[0].v
				}
				outs = append(outs, Outcome{st: yes, ret: Iface{nativeType, v}})
			}
			if no != nil {
				outs = append(outs, Outcome{st: no, ret: Iface{}})
			}
			return outs
		}
	case "enumVal":
		v := n.v.(*EnumVal)
		switch m {
		case "Number":
			return ret(st, e.c.Const(32, uint64(uint32(v.Num))))
		case "Options":
			return nat("enumOpts", v)
		case "Name", "FullName":
			return ret(st, e.constStr(v.Name))
		case "Index":
			return ret(st, e.c.Int(v.Idx))
		}
	case "curve":
		return e.curveMethod(st, n.v.(string), m, args)
	}
	panic(engErr(fmt.Sprintf("native method %s.%s", n.kind, m)))
}

func (e *Eng) extArgs(st *State, args []Value) ([]Alt, int32, types.Type) {
	f := e.resolve(st, args[0]).(Iface)
	var alts []Alt
	if u, ok := f.val.(*Union); ok {
		alts = u.alts
	} else {
		alts = []Alt{{e.c.tru, f.val}}
	}
	for _, a := range alts {
		if n, ok := a.v.(*Native); !ok || n.kind != "enumOpts" {
			panic(engErr("extension of non enum options"))
		}
	}
	xt := e.resolve(st, args[1]).(Iface)
	p := e.resolve(st, xt.val).(Ptr)
	o := e.obj(st, p.obj)
	// ExtensionInfo: find ExtensionType (iface) and Field (int32) slots by struct layout
	et := xt.typ.Underlying().(*types.Pointer).Elem()
	s := et.Underlying().(*types.Struct)
	l := e.layout(et)
	var num int32
	var typ types.Type
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Field":
			num = int32(o.get(p.off + l.foff[i]).(*Term).val)
		case "ExtensionType":
			typ = o.get(p.off + l.foff[i]).(Iface).typ
		}
	}
	return alts, num, typ
}

func (e *Eng) extValue(st *State, ev *EnumVal, num int32, et types.Type) Value {
	vals := ev.Opts[num]
	switch u := et.Underlying().(type) {
	case *types.Pointer:
		el := u.Elem()
		if b, ok := el.Underlying().(*types.Basic); ok { // scalar: (*int32)(nil)
			switch {
			case b.Info()&types.IsInteger != 0:
				v := uint64(0)
				if len(vals) > 0 {
					v = vals[len(vals)-1].varint
				}
				return Iface{el, e.c.Const(intWidth(b), v)}
			case b.Info()&types.IsBoolean != 0:
				v := len(vals) > 0 && vals[len(vals)-1].varint != 0
				return Iface{el, e.c.Bool(v)}
			case b.Info()&types.IsString != 0:
				s := ""
				if len(vals) > 0 {
					s = string(vals[len(vals)-1].bytes)
				}
				return Iface{el, e.constStr(s)}
			}
		}
		// message
		if len(vals) == 0 {
			return Iface{et, nilPtr}
		}
		id := e.alloc(st, el, 1, "ext")
		for _, v := range vals {
			e.wireInto(st, Ptr{obj: id}, el, v.bytes)
		}
		return Iface{et, Ptr{obj: id}}
	}
	panic(engErr("extension type " + et.String()))
}

// wireInto decodes wire bytes into an opaque-API generated struct.
func (e *Eng) wireInto(st *State, p Ptr, t types.Type, b []byte) {
	s := t.Underlying().(*types.Struct)
	l := e.layout(t)
	fld := map[int]int{}
	presIx := map[int]int{}
	presOff := -1
	pi := 0
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "XXX_presence" {
			presOff = l.foff[i]
		}
		tag := reflect.StructTag(s.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		parts := strings.Split(tag, ",")
		n, _ := strconv.Atoi(parts[1])
		fld[n] = i
		presIx[n] = pi
		pi++
	}
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		b = b[n:]
		i, ok := fld[int(num)]
		var vi uint64
		var bs []byte
		switch typ {
		case protowire.VarintType:
			x, k := protowire.ConsumeVarint(b)
			vi = x
			b = b[k:]
		case protowire.BytesType:
			x, k := protowire.ConsumeBytes(b)
			bs = x
			b = b[k:]
		default:
			panic(engErr("wire type"))
		}
		if !ok {
			continue
		}
		off := p.off + l.foff[i]
		ft := s.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				e.setSlot(st, p.obj, off, e.c.Bool(vi != 0))
			} else {
				e.setSlot(st, p.obj, off, e.c.Const(intWidth(u), vi))
			}
		case *types.Pointer:
			if sl, ok := u.Elem().Underlying().(*types.Slice); ok { // *[]*Msg
				mp := sl.Elem().Underlying().(*types.Pointer)
				id := e.alloc(st, mp.Elem(), 1, "extmsg")
				e.wireInto(st, Ptr{obj: id}, mp.Elem(), bs)
				cur := e.obj(st, p.obj).get(off).(Ptr)
				var old Slice
				if cur.obj == 0 {
					cur = Ptr{obj: e.alloc(st, u.Elem(), 1, "extslice")}
					e.setSlot(st, p.obj, off, cur)
					old = e.nilSlice(sl.Elem())
				} else {
					old = e.obj(st, cur.obj).get(0).(Slice)
				}
				k := int(old.len.val)
				nid := e.alloc(st, sl.Elem(), k+1, "extarr")
				for j := 0; j < k; j++ {
					e.setSlot(st, nid, j, e.obj(st, old.obj).get(old.off+j))
				}
				e.setSlot(st, nid, k, Ptr{obj: id})
				e.setSlot(st, cur.obj, 0, Slice{obj: nid, esz: 1, len: e.c.Int(k + 1), cap: e.c.Int(k + 1)})
			} else if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				id := e.alloc(st, u.Elem(), 1, "extstr")
				e.setSlot(st, id, 0, e.constStr(string(bs)))
				e.setSlot(st, p.obj, off, Ptr{obj: id})
			} else {
				id := e.alloc(st, u.Elem(), 1, "extmsg")
				e.wireInto(st, Ptr{obj: id}, u.Elem(), bs)
				e.setSlot(st, p.obj, off, Ptr{obj: id})
			}
		default:
			panic(engErr("wireInto field " + ft.String()))
		}
		if presOff >= 0 {
			k := presIx[int(num)]
			o := e.obj(st, p.obj)
			w := o.get(p.off + presOff + k/32).(*Term)
			e.setSlot(st, p.obj, p.off+presOff+k/32, e.c.BOr(w, e.c.Const(32, 1<<(k%32))))
		}
	}
}

// ---- big integers (magnitudes as big-endian byte cells) ----

func (e *Eng) bigOf(st *State, v Value) []*Term {
	p := e.resolve(st, v).(Ptr)
	s := e.obj(st, p.obj).get(p.off + 1).(Slice)
	if s.obj == 0 {
		return nil
	}
	bs, ok := e.bytesOf(st, s)
	if !ok {
		panic(engErr("big.Int representation"))
	}
	return bs
}

func (e *Eng) isZero(bs []*Term) *Term {
	r := e.c.tru
	for _, b := range bs {
		r = e.c.And(r, e.c.Eq(b, e.c.Const(8, 0)))
	}
	return r
}

func padL(e *Eng, a, b []*Term) ([]*Term, []*Term) {
	z := e.c.Const(8, 0)
	for len(a) < len(b) {
		a = append([]*Term{z}, a...)
	}
	for len(b) < len(a) {
		b = append([]*Term{z}, b...)
	}
	return a, b
}

func (e *Eng) bigLess(a, b []*Term) *Term {
	a, b = padL(e, a, b)
	r := e.c.fls
	for i := len(a) - 1; i >= 0; i-- {
		r = e.c.Or(e.c.Ult(a[i], b[i]), e.c.And(e.c.Eq(a[i], b[i]), r))
	}
	return r
}

func (e *Eng) bigEq(a, b []*Term) *Term {
	a, b = padL(e, a, b)
	r := e.c.tru
	for i := range a {
		r = e.c.And(r, e.c.Eq(a[i], b[i]))
	}
	return r
}

func bigBytes(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	bs := e.bigOf(st, args[0])
	// strip leading zeros: split on the number of them
	var outs []Outcome
	rest := st
	maxStrip := e.cfgInt("bigstrip", 2)
	for k := 0; k <= len(bs) && rest != nil; k++ {
		if k == len(bs) {
			outs = append(outs, Outcome{st: rest, ret: e.newBytes(rest, nil, "bigbytes")})
			break
		}
		yes, no := e.branch(rest, e.c.Not(e.c.Eq(bs[k], e.c.Const(8, 0))))
		if yes != nil {
			outs = append(outs, Outcome{st: yes, ret: e.newBytes(yes, bs[k:], "bigbytes")})
		}
		rest = no
		if k == maxStrip && rest != nil && k < len(bs)-1 {
			e.note(fmt.Sprintf("big integers with more than %d leading zero bytes are outside the bound", maxStrip))
			break
		}
	}
	return outs
}

func bigFill(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	bs := e.bigOf(st, args[0])
	s := e.resolve(st, args[1]).(Slice)
	n := e.conc(st, s.len)
	z := e.c.Const(8, 0)
	var outs []Outcome
	if len(bs) > n {
		fit := e.isZero(bs[:len(bs)-n])
		yes, no := e.branch(st, fit)
		if no != nil {
			outs = append(outs, Outcome{st: no, panic: "math/big: buffer too small to fit value"})
		}
		if yes == nil {
			return outs
		}
		st = yes
		bs = bs[len(bs)-n:]
	}
	for i := 0; i < n; i++ {
		v := z
		if k := i - (n - len(bs)); k >= 0 {
			v = bs[k]
		}
		e.setSlot(st, s.obj, s.off+i, v)
	}
	return append(outs, Outcome{st: st, ret: s})
}

func termsKey(ts ...[]*Term) string {
	var sb strings.Builder
	for _, l := range ts {
		for _, t := range l {
			fmt.Fprintf(&sb, "%d,", t.id)
		}
		sb.WriteByte('|')
	}
	return sb.String()
}

// App is an application of an uninterpreted primitive.
type App struct {
	kind string
	args [][]*Term
	res  []*Term
}

func (e *Eng) app(kind string, n int, w uint8, args ...[]*Term) []*Term {
	k := kind + ":" + termsKey(args...)
	if a, ok := e.apps[k]; ok {
		return a.res
	}
	a := &App{kind: kind, args: args}
	if out := constApp(kind, args); len(out) == n && w == 8 {
		for _, b := range out {
			a.res = append(a.res, e.c.Const(8, uint64(b)))
		}
	}
	for i := len(a.res); i < n; i++ {
		a.res = append(a.res, e.c.Var(fmt.Sprintf("%s#%d[%d]", kind, len(e.apps), i), w))
	}
	e.apps[k] = a
	e.appList = append(e.appList, a)
	return a.res
}

// constApp is the result of a primitive all of whose arguments are known.
func constApp(kind string, args [][]*Term) []byte {
	var in [][]byte
	for _, a := range args {
		b := make([]byte, len(a))
		for i, t := range a {
			if !t.IsConst() {
				return nil
			}
			b[i] = byte(t.val)
		}
		in = append(in, b)
	}
	switch kind {
	case "sha1":
		h := sha1.Sum(in[0])
		return h[:]
	case "sha256":
		h := sha256.Sum256(in[0])
		return h[:]
	case "sha384":
		h := sha512.Sum384(in[0])
		return h[:]
	case "sha512":
		h := sha512.Sum512(in[0])
		return h[:]
	case "modexp":
		m := new(big.Int).SetBytes(in[2])
		if len(in[1]) > 160 || m.Sign() <= 0 {
			return nil
		}
		return new(big.Int).Exp(new(big.Int).SetBytes(in[0]), new(big.Int).SetBytes(in[1]), m).FillBytes(make([]byte, len(in[2])))
	}
	return nil
}

func bigExp(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	p := e.resolve(st, args[0]).(Ptr)
	x, y, m := e.bigOf(st, args[1]), e.bigOf(st, args[2]), e.bigOf(st, args[3])
	var res []*Term
	var outs []Outcome
	finish := func(st *State, res []*Term) {
		nb := e.newBytes(st, res, "bigexp")
		e.setSlot(st, p.obj, p.off, e.c.fls)
		e.setSlot(st, p.obj, p.off+1, nb)
		outs = append(outs, Outcome{st: st, ret: p})
	}
	zero := e.isZero(m)
	zs, nz := e.branch(st, zero)
	if zs != nil {
		// modulus zero: plain power, result of unknown (possibly large) size
		e.note("modular exponentiation with zero modulus gives an unconstrained number of 129 bytes")
		if r := e.appSt(zs, "pow", 129, 8, stripZ(x), stripZ(y)); r != nil {
			finish(zs, r)
		}
	}
	if nz != nil {
		one := e.c.tru
		for i, b := range y {
			v := uint64(0)
			if i == len(y)-1 {
				v = 1
			}
			one = e.c.And(one, e.c.Eq(b, e.c.Const(8, v)))
		}
		if one.IsTrue() {
			yes, no := e.branch(nz, e.bigLess(x, m))
			if yes != nil {
				finish(yes, x)
			}
			nz = no
		}
		if nz != nil {
			m = stripZ(m)
			if inner := e.rsaInverse(x, y, m); inner != nil && e.bigLess(inner, m) != e.c.fls {
				yes, no := e.branch(nz, e.bigLess(inner, m))
				if yes != nil {
					finish(yes, inner)
				}
				if no == nil {
					return outs
				}
				nz = no
			}
			res = e.appSt(nz, "modexp", len(m), 8, stripZ(x), stripZ(y), m)
			if res == nil {
				return outs
			}
			// result < modulus; with exponent one and base below the modulus it is the base
			less := e.bigLess(res, m)
			id := e.c.Implies(e.c.And(one, e.bigLess(x, m)), e.bigEq(res, x))
			if e.assume(nz, e.c.And(less, id)) {
				finish(nz, res)
			}
		}
	}
	return outs
}

func hashFn(kind string, n int) intrinsic {
	return func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		s := e.resolve(st, args[0]).(Slice)
		if !s.len.IsConst() {
			s.len = e.c.Int(e.conc(st, s.len))
		}
		bs, ok := e.bytesOf(st, s)
		if !ok {
			panic(engErr("hash of symbolic-length data"))
		}
		r := e.appSt(st, kind, n, 8, bs)
		if r == nil {
			return nil
		}
		a := &Agg{make([]Value, n)}
		for i := range a.slots {
			a.slots[i] = r[i]
		}
		return ret(st, a)
	}
}

var _ = big.NewInt

func (e *Eng) globalSpecial(g *ssa.Global) (Value, bool) { return nil, false }
