package server_test

import (
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// codecRes is what the codec made of one message.
type codecRes struct {
	Msg   json.RawMessage `json:"msg,omitempty"`   // the message as read
	Bytes string          `json:"bytes,omitempty"` // the frame (or header) as written
	Err   string          `json:"err,omitempty"`
}

func newMsg(id uint16) model.JT808Msg {
	switch id {
	case 0x0001:
		return &model.Msg0001{}
	case 0x0002:
		return &model.Msg0002{}
	case 0x0003:
		return &model.Msg0003{}
	case 0x0004:
		return &model.Msg0004{}
	case 0x0100:
		return &model.Msg0100{}
	case 0x0102:
		return &model.Msg0102{}
	case 0x0104:
		return &model.Msg0104{}
	case 0x0200:
		return &model.Msg0200{}
	case 0x1205:
		return &model.Msg1205{}
	case 0x8001:
		return &model.Msg8001{}
	case 0x8004:
		return &model.Msg8004{}
	case 0x8100:
		return &model.Msg8100{}
	case 0x8103:
		return &model.Msg8103{}
	case 0x8104:
		return &model.Msg8104{}
	case 0x9205:
		return &model.Msg9205{}
	}
	panic(fmt.Sprintf("driver: no message %04x", id))
}

func guarded(f func(res *codecRes) error) *codecRes {
	res := &codecRes{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				res.Err = fmt.Sprint("panic: ", e)
			}
		}()
		if err := f(res); err != nil {
			res.Err = err.Error()
		}
	}()
	return res
}

func init() {
	codec := protocol.NewJT808PacketCodec()
	// frames read, and what was read written again
	extOps["msgread"] = func(d *driver, o *op, r *obs) {
		for i, c := range o.Chunks {
			frame, _ := hex.DecodeString(c)
			id := uint16(o.Words[i])
			r.Codec = append(r.Codec, guarded(func(res *codecRes) error {
				pd, err := codec.Decode(frame)
				if err != nil {
					return err
				}
				m := newMsg(id)
				if err = m.Decode(pd); err != nil {
					return err
				}
				if res.Msg, err = json.Marshal(m); err != nil {
					return err
				}
				b, err := codec.Encode(m)
				res.Bytes = hex.EncodeToString(b)
				return err
			}))
		}
	}
	// messages written; what is read again from one message is no concern of the next
	extOps["msgwrite"] = func(d *driver, o *op, r *obs) {
		for i, c := range o.Chunks {
			id := uint16(o.Words[i])
			r.Codec = append(r.Codec, guarded(func(res *codecRes) error {
				m := newMsg(id)
				if err := json.Unmarshal([]byte(c), m); err != nil {
					panic("driver: " + err.Error())
				}
				b, err := codec.Encode(m)
				res.Bytes = hex.EncodeToString(b)
				return err
			}))
		}
	}
	extOps["msghead"] = func(d *driver, o *op, r *obs) {
		for _, c := range o.Chunks {
			raw, _ := hex.DecodeString(c)
			r.Codec = append(r.Codec, guarded(func(res *codecRes) error {
				h := &model.MsgHeader{}
				err := h.Decode(raw)
				if err != nil {
					return err
				}
				if res.Msg, err = json.Marshal(h); err != nil {
					return err
				}
				b, err := h.Encode()
				res.Bytes = hex.EncodeToString(b)
				return err
			}))
		}
	}
}
