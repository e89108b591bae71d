// Package mut parses CBOR into a tree (descending into byte strings that hold CBOR) and derives
// structural and byte-level mutations. It knows nothing about the code under test.
package mut

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
)

type Node struct {
	Major  byte
	Arg    uint64 // integer value, simple value, tag number
	Info   byte   // additional info for major 7
	Bytes  []byte // string content
	Kids   []*Node
	Nested *Node // content of a byte string that is itself CBOR
	Raw    []byte
}

func Parse(b []byte) (*Node, []byte, error) { return parse(b, 0) }

func head(b []byte) (mj, info byte, arg uint64, n int, err error) {
	if len(b) == 0 {
		return 0, 0, 0, 0, errors.New("eof")
	}
	mj, info = b[0]>>5, b[0]&31
	switch {
	case info < 24:
		return mj, info, uint64(info), 1, nil
	case info == 24 && len(b) >= 2:
		return mj, info, uint64(b[1]), 2, nil
	case info == 25 && len(b) >= 3:
		return mj, info, uint64(binary.BigEndian.Uint16(b[1:])), 3, nil
	case info == 26 && len(b) >= 5:
		return mj, info, uint64(binary.BigEndian.Uint32(b[1:])), 5, nil
	case info == 27 && len(b) >= 9:
		return mj, info, binary.BigEndian.Uint64(b[1:]), 9, nil
	}
	return 0, 0, 0, 0, errors.New("head")
}

func parse(b []byte, depth int) (*Node, []byte, error) {
	if depth > 30 {
		return nil, nil, errors.New("deep")
	}
	mj, info, arg, n, err := head(b)
	if err != nil {
		return nil, nil, err
	}
	nd := &Node{Major: mj, Arg: arg, Info: info}
	b = b[n:]
	switch mj {
	case 2, 3:
		if uint64(len(b)) < arg {
			return nil, nil, errors.New("short string")
		}
		nd.Bytes = append([]byte{}, b[:arg]...)
		b = b[arg:]
		if mj == 2 && arg > 1 {
			if k, rest, err := parse(nd.Bytes, depth+1); err == nil && len(rest) == 0 && k.Major >= 4 && k.Major <= 6 {
				nd.Nested = k
			}
		}
	case 4, 5, 6:
		cnt := arg
		if mj == 5 {
			cnt *= 2
		}
		if mj == 6 {
			cnt = 1
		}
		if cnt > uint64(len(b)) {
			return nil, nil, errors.New("short array")
		}
		for i := uint64(0); i < cnt; i++ {
			var k *Node
			if k, b, err = parse(b, depth+1); err != nil {
				return nil, nil, err
			}
			nd.Kids = append(nd.Kids, k)
		}
	}
	return nd, b, nil
}

func enc(mj byte, arg uint64) []byte {
	switch {
	case arg < 24:
		return []byte{mj<<5 | byte(arg)}
	case arg < 1<<8:
		return []byte{mj<<5 | 24, byte(arg)}
	case arg < 1<<16:
		return binary.BigEndian.AppendUint16([]byte{mj<<5 | 25}, uint16(arg))
	case arg < 1<<32:
		return binary.BigEndian.AppendUint32([]byte{mj<<5 | 26}, uint32(arg))
	}
	return binary.BigEndian.AppendUint64([]byte{mj<<5 | 27}, arg)
}

func (n *Node) Encode() []byte {
	if n.Raw != nil {
		return n.Raw
	}
	switch n.Major {
	case 0, 1:
		return enc(n.Major, n.Arg)
	case 2, 3:
		c := n.Bytes
		if n.Nested != nil {
			c = n.Nested.Encode()
		}
		return append(enc(n.Major, uint64(len(c))), c...)
	case 4, 5:
		l := len(n.Kids)
		if n.Major == 5 {
			l /= 2
		}
		b := enc(n.Major, uint64(l))
		for _, k := range n.Kids {
			b = append(b, k.Encode()...)
		}
		return b
	case 6:
		b := enc(6, n.Arg)
		for _, k := range n.Kids {
			b = append(b, k.Encode()...)
		}
		return b
	}
	switch n.Info {
	case 24:
		return []byte{7<<5 | 24, byte(n.Arg)}
	case 25:
		return binary.BigEndian.AppendUint16([]byte{7<<5 | 25}, uint16(n.Arg))
	case 26:
		return binary.BigEndian.AppendUint32([]byte{7<<5 | 26}, uint32(n.Arg))
	case 27:
		return binary.BigEndian.AppendUint64([]byte{7<<5 | 27}, n.Arg)
	}
	return []byte{7<<5 | n.Info}
}

// Slot is a place in the tree.
type Slot struct {
	Node *Node
	Path string
	up   *Node // container, nil for the root or a nested root
	i    int
}

func (n *Node) Slots() []Slot {
	var out []Slot
	var walk func(k, up *Node, i int, path string)
	walk = func(k, up *Node, i int, path string) {
		out = append(out, Slot{k, path, up, i})
		for j, c := range k.Kids {
			walk(c, k, j, fmt.Sprintf("%s.%d", path, j))
		}
		if k.Nested != nil {
			walk(k.Nested, nil, 0, path+"@")
		}
	}
	walk(n, nil, 0, "$")
	return out
}

func Clone(b []byte) *Node {
	n, _, err := Parse(b)
	if err != nil {
		return nil
	}
	return n
}

// Replacements of any node by a value of another kind.
var Values = [][]byte{
	{0xf6}, {0xf7}, {0xf5}, {0xf4}, {0x00}, {0x20}, {0x18, 0x65}, {0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x3b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0x1b, 0x80, 0, 0, 0, 0, 0, 0, 0}, {0x1a, 0xff, 0xff, 0xff, 0xff},
	{0x40}, {0x41, 0x00}, {0x60}, {0x61, 0x41}, {0x80}, {0x81, 0xf6}, {0x81, 0x80}, {0xa0}, {0xa1, 0x00, 0xf6}, {0xd2, 0x80}, {0xc0, 0x00}, {0xd2, 0x84, 0x40, 0xa0, 0x40, 0x40}, {0xd2, 0xf6},
	{0xf9, 0x7e, 0x00}, {0xfb, 0x7f, 0xf0, 0, 0, 0, 0, 0, 0}, {0x5f, 0xff}, {0x9f, 0xff}, {0xbf, 0xff}, {0xff}, {0xf8, 0xff}, {0x83, 0xf6, 0xf6, 0xf6}, {0x82, 0x00, 0x40}, {0x82, 0x2f, 0x40}, {0x82, 0x05, 0x40},
	{0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x5b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x9a, 0x00, 0xff, 0xff, 0xff}, {0xc2, 0x41, 0x05},
}

type M struct {
	What string
	Data []byte
}

// Structural enumerates the systematic one-node mutations of an encoded value.
func Structural(b []byte) []M {
	n := Clone(b)
	if n == nil {
		return nil
	}
	var out []M
	cnt := len(n.Slots())
	for i := 0; i < cnt; i++ {
		edit := func(what string, f func(s Slot) bool) {
			t := Clone(b)
			s := t.Slots()[i]
			if f(s) {
				out = append(out, M{what + " " + s.Path, t.Encode()})
			}
		}
		for k, v := range Values {
			edit(fmt.Sprintf("value%d", k), func(s Slot) bool { s.Node.Raw = v; return true })
		}
		edit("delete", func(s Slot) bool {
			if s.up == nil || s.up.Major != 4 {
				return false
			}
			s.up.Kids = append(append([]*Node{}, s.up.Kids[:s.i]...), s.up.Kids[s.i+1:]...)
			return true
		})
		edit("dup", func(s Slot) bool {
			if s.up == nil || s.up.Major != 4 {
				return false
			}
			k := append([]*Node{}, s.up.Kids[:s.i+1]...)
			s.up.Kids = append(k, s.up.Kids[s.i:]...)
			return true
		})
		edit("swap", func(s Slot) bool {
			if s.up == nil || s.up.Major != 4 || s.i == 0 {
				return false
			}
			s.up.Kids[s.i], s.up.Kids[s.i-1] = s.up.Kids[s.i-1], s.up.Kids[s.i]
			return true
		})
		edit("empty", func(s Slot) bool {
			s.Node.Nested = nil
			s.Node.Bytes = nil
			if s.Node.Major == 2 || s.Node.Major == 3 {
				return true
			}
			if s.Node.Major == 4 || s.Node.Major == 5 {
				s.Node.Kids = nil
				return true
			}
			return false
		})
		edit("shorter", func(s Slot) bool {
			if s.Node.Major != 2 && s.Node.Major != 3 || len(s.Node.Bytes) == 0 {
				return false
			}
			s.Node.Nested = nil
			s.Node.Bytes = s.Node.Bytes[:len(s.Node.Bytes)-1]
			return true
		})
		edit("longer", func(s Slot) bool {
			if s.Node.Major != 2 && s.Node.Major != 3 {
				return false
			}
			s.Node.Nested = nil
			s.Node.Bytes = append(s.Node.Bytes, 0)
			return true
		})
		for _, d := range []int64{1, -1, 1000, 1 << 33} {
			edit(fmt.Sprintf("int%+d", d), func(s Slot) bool {
				if s.Node.Major > 1 {
					return false
				}
				s.Node.Arg += uint64(d)
				return true
			})
		}
		edit("negate", func(s Slot) bool {
			if s.Node.Major > 1 {
				return false
			}
			s.Node.Major ^= 1
			return true
		})
		edit("untag", func(s Slot) bool {
			if s.Node.Major != 6 {
				return false
			}
			s.Node.Raw = s.Node.Kids[0].Encode()
			return true
		})
		edit("retag", func(s Slot) bool {
			if s.Node.Major != 6 {
				return false
			}
			s.Node.Arg++
			return true
		})
		edit("wraptag", func(s Slot) bool { s.Node.Raw = append(enc(6, 55799), s.Node.Encode()...); return true })
		edit("bstrwrap", func(s Slot) bool {
			e := s.Node.Encode()
			s.Node.Raw = append(enc(2, uint64(len(e))), e...)
			return true
		})
	}
	return out
}

// Random gives a random mutation, structural or byte level, possibly several at once.
func Random(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	for k := 1 + r.IntN(3); k > 0; k-- {
		if r.IntN(2) == 0 {
			n := Clone(out)
			if n != nil {
				sl := n.Slots()
				s := sl[r.IntN(len(sl))]
				switch r.IntN(6) {
				case 0:
					s.Node.Raw = Values[r.IntN(len(Values))]
				case 1:
					o := sl[r.IntN(len(sl))]
					s.Node.Raw = o.Node.Encode()
				case 2:
					if s.up != nil {
						s.up.Kids = append(append([]*Node{}, s.up.Kids[:s.i]...), s.up.Kids[s.i+1:]...)
					}
				case 3:
					s.Node.Arg = r.Uint64() >> r.IntN(64)
				case 4:
					if len(s.Node.Bytes) > 0 {
						s.Node.Nested = nil
						s.Node.Bytes[r.IntN(len(s.Node.Bytes))] ^= 1 << r.IntN(8)
					}
				case 5:
					s.Node.Nested = nil
					l := []int{0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 255, 256, 1000}[r.IntN(13)]
					s.Node.Bytes = make([]byte, l)
				}
				out = n.Encode()
				continue
			}
		}
		out = Byte(r, out)
	}
	return out
}

// Byte is a byte-level mutation.
func Byte(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	if len(out) == 0 {
		return []byte{byte(r.Uint32())}
	}
	i := r.IntN(len(out))
	switch r.IntN(6) {
	case 0:
		out[i] ^= 1 << r.IntN(8)
	case 1:
		out[i] = byte(r.Uint32())
	case 2:
		out = out[:i]
	case 3:
		out = append(out[:i], append([]byte{byte(r.Uint32())}, out[i:]...)...)
	case 4:
		out = append(out[:i], out[i+1:]...)
	case 5:
		for j := i; j < len(out) && j < i+8; j++ {
			out[j] = byte(r.Uint32())
		}
	}
	return out
}
