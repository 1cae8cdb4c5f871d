package main

import (
	"go/constant"
	"go/types"
	"strings"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

type EnumVal struct {
	Name string
	Num  int32
	Opts map[int32][]OptVal // extension field number -> values
	Idx  int
}

type OptVal struct {
	varint uint64
	bytes  []byte
	isB    bool
}

type EnumInfo struct {
	GoName, FullName string
	Vals             []*EnumVal
	typ              types.Type
}

// loadEnums parses the raw descriptors in the generated code.
func (L *Loader) loadEnums() {
	L.enums = map[string]*EnumInfo{}
	for path, p := range L.byPath {
		if !strings.Contains(path, "/proto/gen/") || p.Types == nil {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if !strings.HasSuffix(n, "_rawDesc") {
				continue
			}
			c, ok := sc.Lookup(n).(*types.Const)
			if !ok || c.Val().Kind() != constant.String {
				continue
			}
			fd := &descriptorpb.FileDescriptorProto{}
			if err := proto.Unmarshal([]byte(constant.StringVal(c.Val())), fd); err != nil {
				continue
			}
			pkg := fd.GetPackage()
			for _, en := range fd.EnumType {
				L.addEnum(path, "", pkg, en, sc)
			}
			for _, m := range fd.MessageType {
				L.walkMsg(path, m.GetName()+"_", pkg+"."+m.GetName(), m, sc)
			}
		}
	}
}

func (L *Loader) walkMsg(path, goPrefix, full string, m *descriptorpb.DescriptorProto, sc *types.Scope) {
	for _, en := range m.EnumType {
		L.addEnum(path, goPrefix, full, en, sc)
	}
	for _, k := range m.NestedType {
		L.walkMsg(path, goPrefix+k.GetName()+"_", full+"."+k.GetName(), k, sc)
	}
}

func (L *Loader) addEnum(path, goPrefix, full string, en *descriptorpb.EnumDescriptorProto, sc *types.Scope) {
	ei := &EnumInfo{GoName: goPrefix + en.GetName(), FullName: full + "." + en.GetName()}
	for i, v := range en.Value {
		ev := &EnumVal{Name: v.GetName(), Num: v.GetNumber(), Opts: map[int32][]OptVal{}, Idx: i}
		if v.Options != nil {
			b := v.Options.ProtoReflect().GetUnknown()
			for len(b) > 0 {
				num, typ, n := protowire.ConsumeTag(b)
				if n < 0 {
					break
				}
				b = b[n:]
				switch typ {
				case protowire.VarintType:
					x, k := protowire.ConsumeVarint(b)
					ev.Opts[int32(num)] = append(ev.Opts[int32(num)], OptVal{varint: x})
					b = b[k:]
				case protowire.BytesType:
					x, k := protowire.ConsumeBytes(b)
					ev.Opts[int32(num)] = append(ev.Opts[int32(num)], OptVal{bytes: append([]byte(nil), x...), isB: true})
					b = b[k:]
				default:
					k := protowire.ConsumeFieldValue(num, typ, b)
					if k < 0 {
						k = len(b)
					}
					b = b[k:]
				}
			}
		}
		ei.Vals = append(ei.Vals, ev)
	}
	if o := sc.Lookup(ei.GoName); o != nil {
		ei.typ = o.Type()
	}
	L.enums[path+"."+ei.GoName] = ei
}

func (L *Loader) enumOf(t types.Type) *EnumInfo {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	return L.enums[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}
