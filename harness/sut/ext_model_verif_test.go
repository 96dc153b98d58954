package server_test

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

func init() {
	extOps["geoenc"] = func(d *driver, o *op, r *obs) {
		for _, w := range o.Words {
			g := &model.GeoMeta{}
			g.Decode(w)
			r.Ints = append(r.Ints, g.Encode())
		}
	}
}
