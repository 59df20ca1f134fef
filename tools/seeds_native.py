import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
B='packedrtree/native_bigendian.go'; T='packedrtree/packedrtree.go'; L='packedrtree/native_littleendian.go'
only=sys.argv[1:]
def P(id,*a,**k):
    if not only or any(o in id for o in only): plant(id,*a,**k)
# the big-endian code compiled on this machine: each word of the file is the
# mirror image of the word in memory
SH='''#!/bin/bash
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
grep -v '^//go:build' packedrtree/native_bigendian.go > "$w/be.go"
cat > "$w/o.json" <<E
{"Replace":{"$PWD/packedrtree/x_seeded_test.go":"$d/demo_test.go","$PWD/packedrtree/native_littleendian.go":"","$PWD/packedrtree/native_bigendian.go":"","$PWD/packedrtree/zz_native.go":"$w/be.go"}}
E
go test -vet=off -count=1 -timeout 120s -overlay "$w/o.json" -run '^TestSeeded$' ./packedrtree
rc=$?
rm -rf "$w"
exit $rc
'''
TEST='''package packedrtree

import (
	"bytes"
	"encoding/binary"
	"math"
	"testing"
)

func TestSeeded(t *testing.T) {
	for _, n := range []int{1, 2, 17, 190, 203, 405, 700} {
		refs := make([]Ref, n)
		bounds := EmptyBox
		for i := range refs {
			x, y := float64(i)*1.25, float64(i*i)*-0.5
			refs[i] = Ref{Box: Box{x, y, x + 1, y + 2}, Offset: int64(i) * 1000003}
			bounds.Expand(&refs[i].Box)
		}
		tree, err := New(refs, 16)
		if err != nil {
			t.Fatal(err)
		}
		want := make([]byte, 0, len(tree.nodes)*40)
		for i := range tree.nodes {
			nd := &tree.nodes[i]
			for _, v := range []uint64{math.Float64bits(nd.XMin), math.Float64bits(nd.YMin), math.Float64bits(nd.XMax), math.Float64bits(nd.YMax), uint64(nd.Offset)} {
				want = binary.BigEndian.AppendUint64(want, v)
			}
		}
		before := append([]node(nil), tree.nodes...)
		var w bytes.Buffer
		if m, err := tree.Marshal(&w); err != nil || m != len(want) {
			t.Fatal(n, m, err)
		}
		if !bytes.Equal(w.Bytes(), want) {
			t.Fatal(n, "bytes written are wrong")
		}
		for i := range before {
			if before[i] != tree.nodes[i] {
				t.Fatal(n, "tree modified by Marshal")
			}
		}
		back, err := Unmarshal(bytes.NewReader(want), n, 16)
		if err != nil {
			t.Fatal(err)
		}
		for i := range before {
			if before[i] != back.nodes[i] {
				t.Fatal(n, i, "node read back is wrong")
			}
		}
		rs, err := Seek(bytes.NewReader(want), n, 16, bounds)
		if err != nil || len(rs) != n {
			t.Fatal(n, len(rs), err)
		}
		for _, r := range rs {
			if r.Offset != before[len(before)-n+r.RefIndex].Offset {
				t.Fatal(n, "result of Seek is wrong")
			}
		}
	}
}
'''
P('C22-last-chunk','C22','a big-endian machine and an index of more than 8096 bytes, not a multiple of them',
 'On big-endian architectures the last chunk of a long index is taken from the wrong bytes',
 [(B,"		if len(p)-n < len(buf) {\n			buf = buf[0 : len(p)-n]\n		}\n","		if len(p) < len(buf) {\n			buf = buf[0:len(p)]\n		} else if r := len(p) - n; r < len(buf) {\n			n = len(p) - len(buf)\n		}\n")],TEST,demosh=SH)
P('C22-unmarshal-leaves','C22','a big-endian machine, and a tree read with Unmarshal that has more than one leaf level node range',
 'Unmarshal converts the byte order of the leaves only; inner nodes stay little-endian on big-endian machines',
 [(T,"	fixLittleEndianOctets(dst)\n","	fixLittleEndianOctets(dst[prt.levels[0].start*numNodeBytes:])\n")],TEST,demosh=SH)
BODY="			buf[i+0] = p[n+i+7]\n			buf[i+1] = p[n+i+6]\n			buf[i+2] = p[n+i+5]\n			buf[i+3] = p[n+i+4]\n			buf[i+4] = p[n+i+3]\n			buf[i+5] = p[n+i+2]\n			buf[i+6] = p[n+i+1]\n			buf[i+7] = p[n+i+0]\n"
P('C22-marshal-in-place','C22','a big-endian machine, a Marshal whose writer fails, and the tree used afterwards',
 'Marshal mirrors the words of the tree itself, writes them and mirrors them back, except when the write fails: the tree is unusable afterwards',
 [(B,"		for i := 0; i < len(buf); i += 8 {\n"+BODY+"		}\n		var m int\n		m, err = w.Write(buf)\n		n += m\n		if err != nil {\n			return\n		}\n",
  "		words := p[n : n+len(buf)]\n		fixLittleEndianOctets(words)\n		var m int\n		m, err = w.Write(words)\n		n += m\n		if err != nil {\n			return\n		}\n		fixLittleEndianOctets(words)\n")],
 TEST.replace('	"math"\n','	"io"\n	"math"\n').replace('		var w bytes.Buffer\n','		if _, err := tree.Marshal(failing{}); err == nil {\n			t.Fatal(n)\n		}\n		var w bytes.Buffer\n')+'\ntype failing struct{}\n\nfunc (failing) Write([]byte) (int, error) { return 0, io.ErrShortWrite }\n',demosh=SH)
P('C22-constraint','C22','GOARCH=s390x or mips64',
 'On s390x the little-endian implementation is compiled although the architecture is big-endian',
 [(B,"sparc64 || s390 || s390x","sparc64 || s390"),(L,"|| riscv64","|| riscv64 || s390x")],None,demosh='''#!/bin/bash
. /opt/vp/env.sh
for a in mips mips64 ppc64 s390x; do
	f=$(GOARCH=$a GOOS=linux CGO_ENABLED=0 go list -f '{{join .GoFiles " "}}' ./packedrtree) || exit 1
	case " $f " in *" native_bigendian.go "*) ;; *) echo "$a: $f"; exit 1 ;; esac
done
''')
