package server_test

import (
	"sync/atomic"

	"github.com/fakeyanss/jt808-server-go/internal/client"
	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/test/datagen"
)

var (
	extClis = map[string]*client.TCPClient{}
	extDevs = map[string]*model.Device{}
)

func init() {
	extOps["cliopen"] = func(d *driver, o *op, r *obs) {
		c := newMemConn(o.Conn, o.Addr)
		d.conns[o.Conn] = c
		d.order = append(d.order, o.Conn)
		cli := client.NewTCPClient()
		cli.Session = &model.Session{Conn: c, ID: o.Addr}
		conf := &config.DeviceConf{IDReg: o.Dev.ID, PlateReg: o.Dev.Plate, PhoneReg: o.Dev.Phone, IMEIReg: o.Dev.IMEI,
			ProtocolVersion: o.Dev.Ver, Keepalive: 20, ProvinceIDReg: "31", CityIDReg: "0115", PlateColorReg: "1"}
		dev := datagen.GenDevice(conf)
		dev.SoftwareVersion = o.Dev.SW
		dev.SessionID = cli.Session.ID
		dev.TransProto = model.TCPProto
		dev.Conn = c
		storage.GetDeviceCache().CacheDevice(dev)
		extClis[o.Conn] = cli
		extDevs[o.Conn] = dev
		done := &atomic.Bool{}
		d.cliDone[o.Conn] = done
		go func() {
			defer done.Store(true)
			cli.Start()
		}()
		if o.Kind == "register" {
			cli.Send(datagen.GenMsg0100(conf, dev))
		}
	}
	extOps["clisend"] = func(d *driver, o *op, r *obs) {
		cli, dev := extClis[o.Conn], extDevs[o.Conn]
		switch o.Kind {
		case "0002":
			cli.Send(datagen.GenMsg0002(dev))
		case "0200":
			m := &model.Msg0200{Header: datagen.GenMsg0002(dev).Header}
			m.Header.MsgID = 0x0200
			g := &model.GeoMeta{}
			g.Decode(o.Words[1])
			m.AlarmSign, m.StatusSign, m.Latitude, m.Longitude = o.Words[0], g.Encode(), o.Words[2], o.Words[3]
			m.Altitude, m.Speed, m.Direction = uint16(o.Words[4]), uint16(o.Words[5]), uint16(o.Words[6])
			m.Time = o.Body
			cli.Send(m)
		}
	}
}
