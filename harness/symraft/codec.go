// Package symraft models hashicorp/raft, its log codec and the id generator.
package symraft

import (
	"errors"
	"io"
	"time"

	"github.com/hashicorp/go-msgpack/v2/codec"
	"github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
)

// The codec model keeps the fields of a log entry in a fixed layout; native
// replays use the real codec.

type mcodec struct {
	w   io.Writer
	out *[]byte
	r   io.Reader
	in  []byte
}

var (
	encs = map[*codec.Encoder]*mcodec{}
	decs = map[*codec.Decoder]*mcodec{}
)

//sym:replace github.com/hashicorp/go-msgpack/v2/codec.NewEncoder
func CodecNewEncoder(w io.Writer, h codec.Handle) *codec.Encoder {
	if !sym.Symbolic() {
		return codec.NewEncoder(w, h)
	}
	e := new(codec.Encoder)
	encs[e] = &mcodec{w: w}
	return e
}

//sym:replace github.com/hashicorp/go-msgpack/v2/codec.NewEncoderBytes
func CodecNewEncoderBytes(out *[]byte, h codec.Handle) *codec.Encoder {
	if !sym.Symbolic() {
		return codec.NewEncoderBytes(out, h)
	}
	e := new(codec.Encoder)
	encs[e] = &mcodec{out: out}
	return e
}

//sym:replace github.com/hashicorp/go-msgpack/v2/codec.NewDecoder
func CodecNewDecoder(r io.Reader, h codec.Handle) *codec.Decoder {
	if !sym.Symbolic() {
		return codec.NewDecoder(r, h)
	}
	d := new(codec.Decoder)
	decs[d] = &mcodec{r: r}
	return d
}

//sym:replace github.com/hashicorp/go-msgpack/v2/codec.NewDecoderBytes
func CodecNewDecoderBytes(in []byte, h codec.Handle) *codec.Decoder {
	if !sym.Symbolic() {
		return codec.NewDecoderBytes(in, h)
	}
	d := new(codec.Decoder)
	decs[d] = &mcodec{in: in}
	return d
}

func put64(b []byte, v uint64) []byte {
	return append(b, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func get64(b []byte) (uint64, []byte) {
	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7]), b[8:]
}

func putBytes(b, v []byte) []byte {
	if v == nil {
		return append(b, 0)
	}
	b = append(b, 1, byte(len(v)))
	return append(b, v...)
}

func getBytes(b []byte) ([]byte, []byte) {
	if b[0] == 0 {
		return nil, b[1:]
	}
	n := int(b[1])
	return append([]byte{}, b[2:2+n]...), b[2+n:]
}

//sym:replace (*github.com/hashicorp/go-msgpack/v2/codec.Encoder).Encode
func EncoderEncode(e *codec.Encoder, v interface{}) error {
	if !sym.Symbolic() {
		return e.Encode(v)
	}
	var l *raft.Log
	switch x := v.(type) {
	case *raft.Log:
		l = x
	case raft.Log:
		l = &x
	case **raft.Log:
		l = *x
	default:
		panic("symraft: encoding a value the codec model does not know")
	}
	var b []byte
	b = put64(b, l.Index)
	b = put64(b, l.Term)
	b = append(b, byte(l.Type))
	b = putBytes(b, l.Data)
	b = putBytes(b, l.Extensions)
	if l.AppendedAt.IsZero() {
		b = append(b, 0)
	} else {
		b = append(b, 1)
		b = put64(b, uint64(l.AppendedAt.Unix()))
		b = put64(b, uint64(l.AppendedAt.Nanosecond()))
	}
	m := encs[e]
	if m.out != nil {
		*m.out = append(*m.out, b...)
		return nil
	}
	_, err := m.w.Write(b)
	return err
}

//sym:replace (*github.com/hashicorp/go-msgpack/v2/codec.Decoder).Decode
func DecoderDecode(d *codec.Decoder, v interface{}) error {
	if !sym.Symbolic() {
		return d.Decode(v)
	}
	l, ok := v.(*raft.Log)
	if !ok {
		panic("symraft: decoding a value the codec model does not know")
	}
	m := decs[d]
	b := m.in
	if m.r != nil {
		all, err := io.ReadAll(m.r)
		if err != nil {
			return err
		}
		b = all
	}
	if len(b) < 20 {
		return errors.New("EOF")
	}
	var t uint64
	l.Index, b = get64(b)
	l.Term, b = get64(b)
	l.Type, b = raft.LogType(b[0]), b[1:]
	l.Data, b = getBytes(b)
	l.Extensions, b = getBytes(b)
	if b[0] == 0 {
		l.AppendedAt = time.Time{}
		return nil
	}
	t, b = get64(b[1:])
	n, _ := get64(b)
	l.AppendedAt = time.Unix(int64(t), int64(n)).UTC()
	return nil
}
