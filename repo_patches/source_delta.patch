From b06eb9593b5a01b408fa033ec60678c93d143ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:15 +0000
Subject: [PATCH 01/33] fix: return the latest ring element after the writer
 wraps to slot 0

---
 pkg/container/ring_buffer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..e2e41a1 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -51,10 +51,8 @@ func (r *RingBuffer) Read() any {
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	// 写满一圈后Writer会回到0，此时最新的元素在末尾
+	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
-- 
2.43.0


From 2845751e6894cd42a8c3e67d63914921cd7979f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:17 +0000
Subject: [PATCH 02/33] fix: encode latitude/longitude type into the status
 bits they are decoded from

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..280b475 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -196,8 +196,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From c5a5eb68e8b79813799be6696d133390569c8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:18 +0000
Subject: [PATCH 03/33] fix: hold the cache lock while listing devices and
 counting sessions

---
 internal/storage/device_cache.go  | 2 ++
 internal/storage/session_cache.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..5ec9784 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -32,6 +32,8 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return maps.Values(cache.cacheByPhone)
 }
 
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..1363817 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -74,5 +74,7 @@ func ClearSession(id string) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From db989b4171db58c38f9224c92e42408959d41fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:19 +0000
Subject: [PATCH 04/33] fix: write the protocol version byte in
 platform-originated headers for 2019 devices

---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From 8969a22d57b22c0cf9990d3fefabff6f4b8e9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:20 +0000
Subject: [PATCH 05/33] fix: stop handling a params request once it has been
 answered with an error

---
 internal/api/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..e214ef7 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -59,6 +59,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
@@ -73,6 +74,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +84,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
-- 
2.43.0


From 8485a298520932a39a93322e09c0b10102da1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:21 +0000
Subject: [PATCH 06/33] fix: wrap the session serial number atomically

---
 internal/protocol/model/session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..e0ef0b6 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,7 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	return uint16(atomic.AddUint32(&s.serialNumber, 1)) // 超过MaxUint16后自然回绕到0
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From 338cb3f7cfc961b81e1f5fa11c23be7a99497c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:22 +0000
Subject: [PATCH 07/33] fix: refuse to encode a body longer than the header
 length field can express

---
 internal/protocol/model/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/model/msg.go b/internal/protocol/model/msg.go
index 760a373..c0e47b4 100644
--- a/internal/protocol/model/msg.go
+++ b/internal/protocol/model/msg.go
@@ -25,6 +25,9 @@ type JT808Msg interface {
 }
 
 func writeHeader(m JT808Msg, pkt []byte) ([]byte, error) {
+	if len(pkt) > int(bodyLengthBit) { // 消息体长度只有10位，超长会破坏消息体属性的其他位
+		return nil, ErrEncodeMsg
+	}
 	m.GetHeader().Attr.BodyLength = uint16(len(pkt))
 	headerPkt, err := m.GetHeader().Encode()
 	if err != nil {
-- 
2.43.0


From d517c9b75d902227a149c74c64e9e9d6b1dd2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:23 +0000
Subject: [PATCH 08/33] fix: record the 2011 version when the registration
 layout is the 2011 one

---
 internal/protocol/model/msg_0100.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index cbeff1c..8cd4d16 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -43,7 +43,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 			modeLen = 20
 		} else {
 			modeLen = 8
-			ver = &[]VersionType{Version2011}[0]
+			*ver = Version2011
 		}
 	} else {
 		return ErrDecodeMsg
-- 
2.43.0


From a8ab6def0491893203624ed97c07ddee5d97b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 09/33] fix: do not authenticate with a placeholder code after
 a refused registration

---
 internal/protocol/msg_processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..1ebc108 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -401,6 +401,10 @@ func processMsg8100(_ context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg8100)
 	out := data.Outgoing.(*model.Msg0102)
 
+	if in.Result != model.ResSuccess { // 注册失败，没有可用的鉴权码
+		return ErrActiveClose
+	}
+
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(in.Header.PhoneNumber)
 	if errors.Is(err, storage.ErrDeviceNotFound) {
-- 
2.43.0


From b246309f8dae7d56ca92faf8b9440bd24bf548fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:25 +0000
Subject: [PATCH 10/33] fix: resynchronise on back-to-back frame delimiters

---
 internal/protocol/frame_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index 9c0e710..e5066fd 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -54,6 +54,9 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			return nil, errors.Wrap(err, "Fail to read stream to framePayload")
 		}
 		if readBuf[0] == 0x7e {
+			if inMessage && len(buf) == 1 {
+				continue // 连续的标识位，以后一个作为起始位，避免帧边界错位
+			}
 			buf = append(buf, readBuf[0])
 			if inMessage {
 				// end bit
-- 
2.43.0


From a27d0357d3396655d454a4e6b8e2f8638c07e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:38 +0000
Subject: [PATCH 11/33] fix: stop the keepalive check once the device turns out
 to be gone

The check dereferenced the missing device in a goroutine nobody recovers,
which took the whole server down.
---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From f3c9ec8f4b5008d245c59915bd7654eee2c9c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:39 +0000
Subject: [PATCH 12/33] fix: check and reserve plate and phone atomically when
 registering

Two registrations for one plate or phone racing on different connections
could both pass the check and both be accepted.
---
 internal/protocol/msg_processor.go | 12 +++++-------
 internal/storage/device_cache.go   | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 1ebc108..af2967e 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -270,23 +270,21 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	cache := storage.GetDeviceCache()
 	// 校验注册逻辑
 	out := data.Outgoing.(*model.Msg8100)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+	device := model.NewDevice(in, session)
+	err := cache.RegisterDevice(device)
 	// 车辆已被注册
-	if cache.HasPlate(in.PlateNumber) {
+	if errors.Is(err, storage.ErrPlateOccupied) {
 		out.Result = model.ResCarAlreadyRegister
 		return nil
 	}
 	// 终端已被注册
-	if cache.HasPhone(in.Header.PhoneNumber) {
+	if errors.Is(err, storage.ErrPhoneOccupied) {
 		out.Result = model.ResDeviceAlreadyRegister
 		return nil
 	}
-
-	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
-	device := model.NewDevice(in, session)
 	out.AuthCode = genAuthCode(device) // 设置鉴权码
 
-	cache.CacheDevice(device)
-
 	timer := NewKeepaliveTimer()
 	timer.Register(device.Phone)
 	return nil
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 5ec9784..65427fa 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -9,7 +9,11 @@ import (
 	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
 )
 
-var ErrDeviceNotFound = errors.New("device not found")
+var (
+	ErrDeviceNotFound = errors.New("device not found")
+	ErrPlateOccupied  = errors.New("plate already registered")
+	ErrPhoneOccupied  = errors.New("phone already registered")
+)
 
 type DeviceCache struct {
 	cacheByPlate map[string]*model.Device
@@ -76,6 +80,20 @@ func (cache *DeviceCache) CacheDevice(d *model.Device) {
 	cache.cacheDevice(d)
 }
 
+// 注册设备。检查与写入在同一个临界区内，保证同一车牌、同一手机号只有一个终端注册成功
+func (cache *DeviceCache) RegisterDevice(d *model.Device) error {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if _, ok := cache.cacheByPlate[d.Plate]; ok {
+		return ErrPlateOccupied
+	}
+	if _, ok := cache.cacheByPhone[d.Phone]; ok {
+		return ErrPhoneOccupied
+	}
+	cache.cacheDevice(d)
+	return nil
+}
+
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	var d *model.Device
 	var ok bool
-- 
2.43.0


From b02b1038b6ad762d7c6020379e39602a85babd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:32 +0000
Subject: [PATCH 13/33] fix: never put a removed device back into the cache

Handlers looked a device up, changed it and stored it again, so a heartbeat,
report or keepalive check racing with a deregistration or a failed
authentication brought the removed terminal back, and a keepalive job or a
removal left over from an earlier registration hit its successor. The last
location also survived deregistration.
---
 internal/protocol/keepalive.go     | 61 +++++++++++++++---------------
 internal/protocol/msg_processor.go | 61 ++++++++++++++++--------------
 internal/storage/device_cache.go   | 23 +++++++++++
 3 files changed, 86 insertions(+), 59 deletions(-)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 2ec42ff..f37aee4 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/fakeyanss/gron"
@@ -28,19 +29,15 @@ func NewKeepaliveTimer() *KeepaliveTimer {
 	return timerSingleton
 }
 
-func (t *KeepaliveTimer) Register(devicePhone string) {
-	cache := storage.GetDeviceCache()
-	device, err := cache.GetDeviceByPhone(devicePhone)
-	if errors.Is(err, storage.ErrDeviceNotFound) {
-		return
-	}
-	job := &CheckDeviceJob{phone: devicePhone}
+func (t *KeepaliveTimer) Register(device *model.Device) {
+	job := &CheckDeviceJob{device: device}
 	t.cron.Add(gron.Every(device.Keepalive), job)
-	log.Debug().Str("device", devicePhone).Msg("Register device keepalive check job")
+	log.Debug().Str("device", device.Phone).Msg("Register device keepalive check job")
 }
 
-func (t *KeepaliveTimer) Cancel(devicePhone string) {
-	t.cron.Cancel(devicePhone)
+func (t *KeepaliveTimer) Cancel(device *model.Device) {
+	job := &CheckDeviceJob{device: device}
+	t.cron.Cancel(job.JobID())
 }
 
 func (t *KeepaliveTimer) Jobs() []*gron.Entry {
@@ -48,40 +45,44 @@ func (t *KeepaliveTimer) Jobs() []*gron.Entry {
 }
 
 type CheckDeviceJob struct {
-	phone string
+	device *model.Device
 }
 
+// 每次注册对应一个任务，同一手机号重新注册后，不会影响新注册的任务
 func (j *CheckDeviceJob) JobID() string {
-	return j.phone
+	return fmt.Sprintf("%s@%p", j.device.Phone, j.device)
 }
 
 func (j *CheckDeviceJob) Run() {
-	checkDeviceKeepalive(timerSingleton, j.phone)
+	checkDeviceKeepalive(timerSingleton, j.device)
 }
 
 // 检查设备保活
 // 1. 当前在线，保活失效，改为离线，断开tcp连接
 // 2. 当前离线，缓存保留3倍保活时间
-func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
-	log.Debug().Str("device", devicePhone).Msg("Check device keepalive status")
+func checkDeviceKeepalive(t *KeepaliveTimer, d *model.Device) {
+	log.Debug().Str("device", d.Phone).Msg("Check device keepalive status")
 	cache := storage.GetDeviceCache()
-	gisCache := storage.GetGeoCache()
-	d, err := cache.GetDeviceByPhone(devicePhone)
+	var shouldClear bool
+	err := cache.UpdateDevice(d, func() {
+		if d.ShouleTurnOffline() {
+			// 保活失效
+			d.Status = model.DeviceStatusOffline
+			log.Debug().Str("device", d.Phone).Msg("Turn offline for device keepalive expired")
+		} else {
+			shouldClear = d.ShouldClear()
+		}
+	})
 	if errors.Is(err, storage.ErrDeviceNotFound) {
-		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
-		t.Cancel(devicePhone)
+		log.Debug().Str("device", d.Phone).Msg("Fail to find device cache")
+		t.Cancel(d)
 		return
 	}
-	if d.ShouleTurnOffline() {
-		// 保活失效
-		d.Status = model.DeviceStatusOffline
-		cache.CacheDevice(d)
-		log.Debug().Str("device", devicePhone).Msg("Turn offline for device keepalive expired")
-	} else if d.ShouldClear() {
-		d.Conn.Close()
-		cache.DelDeviceByPhone(devicePhone)
-		gisCache.DelGeoByPhone(devicePhone)
-		log.Debug().Str("device", d.Phone).Msg("Clear cache and close connection after device being offline for a long time")
-		t.Cancel(devicePhone)
+	if shouldClear {
+		if err = cache.RemoveDevice(d); err == nil {
+			d.Conn.Close()
+			log.Debug().Str("device", d.Phone).Msg("Clear cache and close connection after device being offline for a long time")
+		}
+		t.Cancel(d)
 	}
 }
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index af2967e..327cd17 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -240,10 +240,9 @@ func processMsg0002(_ context.Context, data *model.ProcessData) error {
 		return errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", data.Incoming.GetHeader().PhoneNumber)
 	}
 
-	device.LastestComTime = time.Now()
-	cache.CacheDevice(device)
-
-	return nil
+	return cache.UpdateDevice(device, func() {
+		device.LastestComTime = time.Now()
+	})
 }
 
 // 收到注销，应清除缓存，断开连接。
@@ -256,9 +255,11 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	}
 	// 取消定时任务
 	timer := NewKeepaliveTimer()
-	timer.Cancel(device.Phone)
-	// 清楚缓存
-	cache.DelDeviceByPhone(device.Phone)
+	timer.Cancel(device)
+	// 清除缓存
+	if err = cache.RemoveDevice(device); err != nil {
+		return err
+	}
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
 }
@@ -286,7 +287,7 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	out.AuthCode = genAuthCode(device) // 设置鉴权码
 
 	timer := NewKeepaliveTimer()
-	timer.Register(device.Phone)
+	timer.Register(device)
 	return nil
 }
 
@@ -307,20 +308,19 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		out.Result = model.ResultFail
 		// 取消定时任务
 		timer := NewKeepaliveTimer()
-		timer.Cancel(device.Phone)
+		timer.Cancel(device)
 		// 删除设备缓存
-		cache.DelDeviceByPhone(device.Phone)
-	} else {
-		// 鉴权通过
+		return cache.RemoveDevice(device)
+	}
+
+	// 鉴权通过
+	return cache.UpdateDevice(device, func() {
 		device.Status = model.DeviceStatusOnline
 		device.LastestComTime = time.Now()
 		device.AuthCode = in.AuthCode
 		device.IMEI = in.IMEI
 		device.SoftwareVersion = in.SoftwareVersion
-		cache.CacheDevice(device)
-	}
-
-	return nil
+	})
 }
 
 func genAuthCode(d *model.Device) string {
@@ -358,17 +358,16 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 		return errors.Wrapf(err, "Fail to decode device geo, phoneNumber=%s", device.Phone)
 	}
 
-	if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
-		device.Status = model.DeviceStatusSleeping
-		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
-	}
-
-	geoCache := storage.GetGeoCache()
-	rb := geoCache.GetGeoRingByPhone(device.Phone)
-	rb.Write(dg)
+	return cache.UpdateDevice(device, func() {
+		if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
+			device.Status = model.DeviceStatusSleeping
+			device.LastestComTime = time.Now()
+		}
 
-	return nil
+		geoCache := storage.GetGeoCache()
+		rb := geoCache.GetGeoRingByPhone(device.Phone)
+		rb.Write(dg)
+	})
 }
 
 func processMsg8001(_ context.Context, data *model.ProcessData) error {
@@ -386,9 +385,13 @@ func processMsg8001(_ context.Context, data *model.ProcessData) error {
 		}
 
 		// 仅在未注册成功时执行一次
-		device.Status = model.DeviceStatusOnline
-		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
+		err = cache.UpdateDevice(device, func() {
+			device.Status = model.DeviceStatusOnline
+			device.LastestComTime = time.Now()
+		})
+		if err != nil {
+			return ErrActiveClose
+		}
 	}
 
 	return nil
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 65427fa..9d3e4d8 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -94,6 +94,29 @@ func (cache *DeviceCache) RegisterDevice(d *model.Device) error {
 	return nil
 }
 
+// 更新设备。设备已被移除、或已被新的注册替换时不做任何修改，避免把已移除的设备重新写回缓存
+func (cache *DeviceCache) UpdateDevice(d *model.Device, update func()) error {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if cache.cacheByPhone[d.Phone] != d {
+		return ErrDeviceNotFound
+	}
+	update()
+	return nil
+}
+
+// 移除设备及其位置信息。只移除这一次注册，不影响之后的新注册
+func (cache *DeviceCache) RemoveDevice(d *model.Device) error {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if cache.cacheByPhone[d.Phone] != d {
+		return ErrDeviceNotFound
+	}
+	cache.delDevice(nil, &d.Phone)
+	GetGeoCache().DelGeoByPhone(d.Phone)
+	return nil
+}
+
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	var d *model.Device
 	var ok bool
-- 
2.43.0


From fdf7714b6d9ad146021f3bbf2ed9a0d3ee3e9f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:45 +0000
Subject: [PATCH 14/33] fix: list snapshots of the devices, not the ones being
 updated

---
 internal/storage/device_cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 9d3e4d8..3d2cce2 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -38,7 +38,12 @@ func GetDeviceCache() *DeviceCache {
 func (cache *DeviceCache) ListDevice() []*model.Device {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
-	return maps.Values(cache.cacheByPhone)
+	devices := maps.Values(cache.cacheByPhone)
+	for i, d := range devices {
+		snapshot := *d // 返回快照，避免序列化时设备正在被更新
+		devices[i] = &snapshot
+	}
+	return devices
 }
 
 func (cache *DeviceCache) GetDeviceByPlate(carPlate string) (*model.Device, error) {
-- 
2.43.0


From d68aa82e10fff0468ea69bfc8f3014e2698699ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 15/33] fix: bind the device to the connection it authenticates
 on

A terminal that reconnects re-authenticates on the new connection, but
commands kept going to (and expiry kept closing) the connection it had
registered on.
---
 internal/protocol/msg_processor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 327cd17..bac6e32 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -292,7 +292,7 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 }
 
 // 收到鉴权，应校验鉴权token
-func processMsg0102(_ context.Context, data *model.ProcessData) error {
+func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0102)
 
 	cache := storage.GetDeviceCache()
@@ -313,8 +313,12 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		return cache.RemoveDevice(device)
 	}
 
-	// 鉴权通过
+	// 鉴权通过，后续下发的消息使用当前连接
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
 	return cache.UpdateDevice(device, func() {
+		device.SessionID = session.ID
+		device.TransProto = session.GetTransProto()
+		device.Conn = session.Conn
 		device.Status = model.DeviceStatusOnline
 		device.LastestComTime = time.Now()
 		device.AuthCode = in.AuthCode
-- 
2.43.0


From 142337b55d021a2fd4f0cf6ab964c7bc77e54a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:20 +0000
Subject: [PATCH 16/33] fix: do not clear the session of a later connection
 from the same address

A session outlives its connection while the serve loop pauses after an
error; a terminal that reconnected from the same address meanwhile lost its
new session and could not be sent commands any more.
---
 internal/server/tcp_server.go     | 2 +-
 internal/storage/session_cache.go | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index c9706e4..6042178 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -76,7 +76,7 @@ func (serv *TCPServer) remove(session *model.Session) {
 	defer serv.mutex.Unlock()
 
 	session.Conn.Close()
-	storage.ClearSession(session.ID)
+	storage.ClearSession(session)
 	// delete(serv.sessions, session.ID)
 
 	log.Debug().Str("id", session.ID).Msg("Closing connection from remote.")
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 1363817..7f191c9 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -63,12 +63,14 @@ func StoreSession(s *model.Session) {
 	c.cacheByID[s.ID] = s
 }
 
-// 清理session
-func ClearSession(id string) {
+// 清理session。id是对端地址，可能已被对端重连后的新session使用，此时不能清理
+func ClearSession(s *model.Session) {
 	c := getSessionCache()
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
-	delete(c.cacheByID, id)
+	if c.cacheByID[s.ID] == s {
+		delete(c.cacheByID, s.ID)
+	}
 }
 
 // 统计session个数
-- 
2.43.0


From f6618d0d4ee09917b20cef3f4e4464b4083ee602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:22 +0000
Subject: [PATCH 17/33] fix: do not send a terminal's command to another one
 reusing its address

---
 internal/api/api.go               |  4 ++--
 internal/storage/session_cache.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index e214ef7..0cb34fd 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -56,7 +56,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := storage.GetDeviceSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
@@ -81,7 +81,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := storage.GetDeviceSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 7f191c9..a1962c9 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -55,6 +55,18 @@ func GetSession(id string) (*model.Session, error) {
 	return nil, ErrSessionClosed
 }
 
+// 获取设备所在连接的session。设备的连接已关闭时返回ErrSessionClosed，即使有其他终端复用了相同的对端地址
+func GetDeviceSession(d *model.Device) (*model.Session, error) {
+	s, err := GetSession(d.SessionID)
+	if err != nil {
+		return nil, err
+	}
+	if s.Conn != d.Conn {
+		return nil, ErrSessionClosed
+	}
+	return s, nil
+}
+
 // 缓存session
 func StoreSession(s *model.Session) {
 	c := getSessionCache()
-- 
2.43.0


From fad5d191c47d9153ad712f9c37fcf1d30074ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:22 +0000
Subject: [PATCH 18/33] fix: ignore platform messages sent by a terminal

A terminal that sent a 0x8001 success to the server was marked online
without ever authenticating.
---
 internal/protocol/model/session.go | 1 +
 internal/protocol/msg_processor.go | 7 +++++++
 internal/server/tcp_server.go      | 5 +++--
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index e0ef0b6..778df57 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -31,6 +31,7 @@ type (
 type Session struct {
 	ID           string // remote addr
 	Conn         net.Conn
+	ServerSide   bool // 是否是平台侧的session，即对端是终端
 	serialNumber uint32
 }
 
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index bac6e32..c5b38b6 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -25,6 +25,9 @@ var (
 	ErrActiveClose        = errors.New("Active close")             // client无法继续处理，应主动关闭连接
 )
 
+// 平台消息的ID从0x8000开始
+const platformMsgID uint16 = 0x8000
+
 // 处理消息的Handler接口
 type MsgProcessor interface {
 	Process(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error)
@@ -143,6 +146,10 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	if _, ok := mp.options[msgID]; !ok {
 		return nil, ErrMsgIDNotSupportted
 	}
+	// 终端不能发送平台消息，否则可以绕过鉴权
+	if session, ok := ctx.Value(model.SessionCtxKey{}).(*model.Session); ok && session.ServerSide && msgID >= platformMsgID {
+		return nil, ErrMsgIDNotSupportted
+	}
 
 	// process segment packet
 	if pkt.Header.IsFragmented() && !pkt.SegCompleted {
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 6042178..061c7ac 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -61,8 +61,9 @@ func (serv *TCPServer) accept(conn net.Conn) *model.Session {
 	remoteAddr := conn.RemoteAddr().String()
 	serv.mutex.Lock()
 	session := &model.Session{
-		Conn: conn,
-		ID:   remoteAddr, // using remote addr default
+		Conn:       conn,
+		ID:         remoteAddr, // using remote addr default
+		ServerSide: true,
 	}
 	// serv.sessions[remoteAddr] = session
 	storage.StoreSession(session)
-- 
2.43.0


From 84bf7c24c2cdb7dbfe95cf264e2f90a60e104d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:33 +0000
Subject: [PATCH 19/33] fix: reassemble fragmented messages

The first fragment of a message crashed its connection, the merged body was
never handed to the processor, a finished or interrupted assembly was never
dropped, and the reply kept the fragment's header.
---
 internal/protocol/model/header.go  |  8 ++++++++
 internal/protocol/msg_processor.go |  4 ++--
 internal/protocol/packet_codec.go  |  7 +++++--
 internal/storage/segment_cache.go  | 25 +++++++++++++++++++------
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index 9801d22..b95a888 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -91,6 +91,14 @@ func (h *MsgHeader) IsFragmented() bool {
 	return h.Attr.PacketFragmented == 1
 }
 
+// 分包合并完成，消息头转为未分包的完整消息的消息头
+func (h *MsgHeader) MergeFragmented(bodyLength int) {
+	h.Attr.BodyLength = uint16(bodyLength)
+	h.Attr.PacketFragmented = 0
+	h.Attr.PacketFragmentedDesc = PacketFragmentedFalse
+	h.Frag = nil
+}
+
 // 消息体属性字段的bit位
 const (
 	bodyLengthBit    uint16 = 0b0000001111111111
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index c5b38b6..87db975 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -217,7 +217,7 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	return data, nil
 }
 
-func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
+func processSegmentPacket(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
 	// JT1078 4.1节定义，对每个分包回复8001
 	cache := storage.GetDeviceCache()
 	phone := pkt.Header.PhoneNumber
@@ -226,7 +226,7 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
-	session, err := storage.GetSession(device.SessionID)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index bc7c42a..8f61d84 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -69,8 +69,11 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 	if pd.Header.IsFragmented() {
 		seg := model.NewSegment(pd)
 		pd.SegCompleted = storage.CacheSegment(seg)
-		// 分包接收完成
-		pd.Body = seg.Data
+		if pd.SegCompleted {
+			// 分包接收完成，后续按完整的消息处理
+			pd.Body = seg.Data
+			pd.Header.MergeFragmented(len(pd.Body))
+		}
 	}
 
 	pd.Header.Idx = 0 // reset idx
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..ef4f4e9 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -25,6 +25,7 @@ func getSegmentCache() *SegmentCache {
 	return segmentCacheSingleton
 }
 
+// 缓存分包，返回分包是否全部按序到达。到达时，seg.Data为合并后的消息体
 func CacheSegment(seg *model.Segment) bool {
 	b := new(strings.Builder)
 	b.WriteString(seg.Phone)
@@ -35,11 +36,23 @@ func CacheSegment(seg *model.Segment) bool {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+	switch {
+	case seg.SegNo == 1 && seg.SegTotal > 0:
+		first := *seg // 首个分包，重新开始合并
+		s = &first
+		cache.cacheByKey[key] = s
+	case ok && seg.SegTotal == s.SegTotal && seg.SegNo == s.SegNo:
+		return false // 重复的分包
+	case ok && seg.SegTotal == s.SegTotal && int(seg.SegNo) == int(s.SegNo)+1:
+		s.Merge(seg)
+	default:
+		delete(cache.cacheByKey, key) // 分包不连续，无法合并
+		return false
 	}
-	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	if !s.IsComplete() {
+		return false
+	}
+	delete(cache.cacheByKey, key)
+	seg.Data = s.Data
+	return true
 }
-- 
2.43.0


From 616449e4e73bc14b3b3c3aaaff82c18edd0a9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:17 +0000
Subject: [PATCH 20/33] fix: write the header phone number at its fixed width

A phone number padded with F digits was decoded without the padding and
written back too short, so every reply to that terminal was malformed.
---
 internal/protocol/model/header.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index b95a888..a51cee9 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -1,6 +1,8 @@
 package model
 
 import (
+	"strings"
+
 	"github.com/pkg/errors"
 
 	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
@@ -70,7 +72,7 @@ func (h *MsgHeader) Encode() (pkt []byte, err error) {
 	if h.Attr.VersionDesc == Version2019 {
 		pkt = hex.WriteByte(pkt, h.ProtocolVersion) // 协议版本号
 	}
-	pkt = hex.WriteBCD(pkt, h.PhoneNumber)   // 手机号
+	pkt = hex.WriteBCD(pkt, h.paddedPhone()) // 手机号
 	pkt = hex.WriteWord(pkt, h.SerialNumber) // 消息流水号
 	if h.Frag != nil {
 		pkt = append(pkt, h.Frag.Encode()...) // 消息包封装项
@@ -79,6 +81,18 @@ func (h *MsgHeader) Encode() (pkt []byte, err error) {
 	return pkt, nil
 }
 
+// 手机号定长，2013版本12位，2019版本20位。解码时去掉了前面填充的F，编码时需要补齐
+func (h *MsgHeader) paddedPhone() string {
+	phoneLen := 12
+	if h.Attr.VersionDesc == Version2019 {
+		phoneLen = 20
+	}
+	if fillLen := phoneLen - len(h.PhoneNumber); fillLen > 0 {
+		return strings.Repeat("F", fillLen) + h.PhoneNumber
+	}
+	return h.PhoneNumber
+}
+
 func (h *MsgHeader) GetVersionDesc() VersionType {
 	return h.Attr.VersionDesc
 }
-- 
2.43.0


From 348022ae34a43e043ff4013fca6309ad3d197b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:43 +0000
Subject: [PATCH 21/33] fix: keep the parameter list consistent with its items

A parameter the server does not know crashed the decoder, the count written
was the caller's and not the number of items that follow, a value longer
than 255 bytes or not expressible in its encoding was written with a wrong
length or as empty, and byte parameters containing an F digit were cut.
---
 internal/protocol/model/device_params.go | 31 +++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..466f9ca 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -2,7 +2,9 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"sort"
+	"strings"
 
 	"github.com/pkg/errors"
 	"github.com/rs/zerolog/log"
@@ -39,7 +41,8 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	var cnt uint8
+	pkt = hex.WriteByte(pkt, cnt)
 	for _, arg := range p.Params {
 		paramBytes, err := arg.Encode()
 		if err != nil {
@@ -48,7 +51,9 @@ func (p *DeviceParams) Encode() (pkt []byte, err error) {
 			continue
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
+		cnt++
 	}
+	pkt[0] = cnt // 参数项个数应与实际编码的参数项一致
 	return pkt, nil
 }
 
@@ -86,6 +91,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		hex.ReadBytes(pkt, idx, int(p.ParamLen))
+		return nil
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
@@ -95,6 +102,12 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
 		value := fn.encode(p.ParamValue)
+		if len(value) > math.MaxUint8 { // 参数长度只有一个字节
+			return nil, ErrEncodeDeviceParams
+		}
+		if s, isStr := p.ParamValue.(string); isStr && s != "" && len(value) == 0 { // 无法编码的字符串
+			return nil, ErrEncodeDeviceParams
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
@@ -152,6 +165,18 @@ func writeDoubleWordAny(pkt []byte, num any) []byte {
 	return hex.WriteDoubleWord(pkt, any2uint32(num))
 }
 
+func readHexStr(pkt []byte, idx *int, n int) string {
+	return strings.ToUpper(hex.Byte2Str(hex.ReadBytes(pkt, idx, n)))
+}
+
+func writeHexStr(pkt []byte, str string) []byte {
+	value := hex.Str2Byte(str)
+	if len(value)*2 != len(str) { // 不是合法的十六进制字符串
+		return nil
+	}
+	return hex.WriteBytes(pkt, value)
+}
+
 var (
 	decodeByte       = func(b []byte, idx *int, paramLen int) any { return hex.ReadByte(b, idx) }
 	encodeByte       = func(a any) (pkt []byte) { return writeByteAny(pkt, a) }
@@ -159,8 +184,8 @@ var (
 	encodeWord       = func(a any) (pkt []byte) { return writeWordAny(pkt, a) }
 	decodeDoubleWord = func(b []byte, idx *int, paramLen int) any { return hex.ReadDoubleWord(b, idx) }
 	encodeDoubleWord = func(a any) (pkt []byte) { return writeDoubleWordAny(pkt, a) }
-	decodeBytes      = func(b []byte, idx *int, paramLen int) any { return hex.ReadBCD(b, idx, paramLen) } // transform bytes to string
-	encodeBytes      = func(a any) (pkt []byte) { return hex.WriteBCD(pkt, a.(string)) }                   // transform string to bytes
+	decodeBytes      = func(b []byte, idx *int, paramLen int) any { return readHexStr(b, idx, paramLen) } // transform bytes to string
+	encodeBytes      = func(a any) (pkt []byte) { return writeHexStr(pkt, a.(string)) }                   // transform string to bytes
 	decodeString     = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
 	encodeString     = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
 	decodeGBK        = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
-- 
2.43.0


From 7fd5d002c964bf205c69d1eea34d3bb14c145673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 22/33] fix: let the simulated terminal answer a parameter
 query and keep new parameters

The built-in default list declared 35 bytes for its 15-byte last item, which
crashed the answer, and a parameter set by the platform that was not in the
list yet was acknowledged but dropped.
---
 internal/protocol/model/device_params.go | 5 +----
 internal/protocol/msg_processor.go       | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 466f9ca..8c09a7e 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -63,10 +63,7 @@ func (p *DeviceParams) Update(newParams *DeviceParams) {
 		paramMap[param.ParamID] = param
 	}
 	for _, newParam := range newParams.Params {
-		id := newParam.ParamID
-		if _, ok := paramMap[id]; ok {
-			paramMap[id] = newParam
-		}
+		paramMap[newParam.ParamID] = newParam
 	}
 	mergeParams := []*ParamData{}
 	for _, param := range paramMap {
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 87db975..44a641e 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -490,7 +490,7 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 			"00000030045A4A6830" +
 			"00000031026C64" +
 			"000000320409302130" +
-			"0000007623030000010100010202000103030001"
+			"000000760F030000010100010202000103030001"
 		_ = out.Parameters.Decode(out.Header.PhoneNumber, uint8(paramCnt), hex.Str2Byte(paramByteStr))
 		paramCache.CacheDeviceParams(out.Parameters)
 	} else {
-- 
2.43.0


From 985b16223db9e82df552045b457c6940112f0889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:52 +0000
Subject: [PATCH 23/33] fix: answer the location query from one moment, not
 from a device being updated

---
 internal/api/api.go              | 18 ++++++++++--------
 internal/storage/device_cache.go | 12 ++++++++++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index 0cb34fd..3e7ef75 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -28,20 +28,22 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 	router.GET("/device/:phone/geo", func(c *gin.Context) {
 		phone := c.Param("phone")
 
-		device, err := cache.GetDeviceByPhone(phone)
+		res := make(map[string]any)
+		var gis *model.DeviceGeo
+		var decodeErr, gisErr error
+		err := cache.ViewDevice(phone, func(device *model.Device) {
+			decodeErr = mapstructure.Decode(device, &res)
+			gis, gisErr = geoCache.GetGeoLatestByPhone(phone)
+		})
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-
-		res := make(map[string]any)
-		err = mapstructure.Decode(device, &res)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+		if decodeErr != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": decodeErr.Error()})
 			return
 		}
-		gis, err := geoCache.GetGeoLatestByPhone(phone)
-		if err != nil {
+		if gisErr != nil {
 			return
 		}
 		res["gis"] = gis
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 3d2cce2..adca17c 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -110,6 +110,18 @@ func (cache *DeviceCache) UpdateDevice(d *model.Device, update func()) error {
 	return nil
 }
 
+// 读取设备。在临界区内读取，保证读到的设备信息、位置信息和连接是同一时刻的
+func (cache *DeviceCache) ViewDevice(phone string, view func(d *model.Device)) error {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	d, ok := cache.cacheByPhone[phone]
+	if !ok {
+		return ErrDeviceNotFound
+	}
+	view(d)
+	return nil
+}
+
 // 移除设备及其位置信息。只移除这一次注册，不影响之后的新注册
 func (cache *DeviceCache) RemoveDevice(d *model.Device) error {
 	cache.mutex.Lock()
-- 
2.43.0


From a874424322fe8a17a289c1eb9c516a29b6eb5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:16 +0000
Subject: [PATCH 24/33] fix: look up and use a command's connection once, not
 by address again

---
 internal/api/api.go           | 35 +++++++++++++++++++----------------
 internal/server/tcp_server.go |  8 ++++++--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index 3e7ef75..d6ab1ea 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -53,21 +53,15 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 
 	router.GET("/device/:phone/params", func(c *gin.Context) {
 		phone := c.Param("phone")
-		device, err := cache.GetDeviceByPhone(phone)
+		session, header, err := genCmdHeader(cache, phone, 0x8104)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetDeviceSession(device)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
-			return
-		}
-		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
 			Header: header,
 		}
-		serv.Send(session.ID, &msg)
+		serv.SendTo(session, &msg)
 		// todo: read channel from process 0104 msg
 	})
 
@@ -78,22 +72,16 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		device, err := cache.GetDeviceByPhone(phone)
+		session, header, err := genCmdHeader(cache, phone, 0x8103)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetDeviceSession(device)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
-			return
-		}
-		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
 			Header:     header,
 			Parameters: &params,
 		}
-		serv.Send(session.ID, &msg)
+		serv.SendTo(session, &msg)
 	})
 
 	httpAddr := ":" + cfg.Server.Port.HTTPPort
@@ -105,3 +93,18 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		os.Exit(1)
 	}
 }
+
+// 获取设备当前所在连接的session，并生成下发消息的消息头。设备可能同时在其他连接上鉴权，需要在临界区内读取
+func genCmdHeader(cache *storage.DeviceCache, phone string, msgID uint16) (session *model.Session, header *model.MsgHeader, err error) {
+	var sessionErr error
+	err = cache.ViewDevice(phone, func(device *model.Device) {
+		session, sessionErr = storage.GetDeviceSession(device)
+		if sessionErr == nil {
+			header = model.GenMsgHeader(device, msgID, session.GetNextSerialNum())
+		}
+	})
+	if err == nil {
+		err = sessionErr
+	}
+	return session, header, err
+}
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 061c7ac..93a54ac 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -117,13 +117,17 @@ func (serv *TCPServer) Send(id string, msg model.JT808Msg) {
 		log.Warn().Str("id", id).Msg("Fail to get session from cache, maybe conn was closed.")
 		return
 	}
+	serv.SendTo(session, msg)
+}
 
+// 发送消息到指定的session。session的连接关闭后，不会发送到复用了相同对端地址的其他连接
+func (serv *TCPServer) SendTo(session *model.Session, msg model.JT808Msg) {
 	pg := protocol.NewPipeline(session.Conn)
 
 	// 记录value ctx
 	ctx := context.WithValue(context.Background(), model.ProcessDataCtxKey{}, &model.ProcessData{Outgoing: msg})
 
-	err = pg.ProcessConnWrite(ctx)
+	err := pg.ProcessConnWrite(ctx)
 
 	if err == nil {
 		return
@@ -133,5 +137,5 @@ func (serv *TCPServer) Send(id string, msg model.JT808Msg) {
 		serv.remove(session)
 	}
 
-	log.Error().Err(err).Str("device", id).Msg("Failed to send jtmsg to device")
+	log.Error().Err(err).Str("device", session.ID).Msg("Failed to send jtmsg to device")
 }
-- 
2.43.0


From 05b2026209eab5eb0d0be9b5443bdf2d1a238886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:18 +0000
Subject: [PATCH 25/33] fix: decide and remove an expired terminal in one step

---
 internal/protocol/keepalive.go   | 18 +++++++++---------
 internal/storage/device_cache.go | 13 +++++++++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index f37aee4..67bce71 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -2,6 +2,7 @@ package protocol
 
 import (
 	"fmt"
+	"net"
 	"sync"
 
 	"github.com/fakeyanss/gron"
@@ -63,26 +64,25 @@ func (j *CheckDeviceJob) Run() {
 func checkDeviceKeepalive(t *KeepaliveTimer, d *model.Device) {
 	log.Debug().Str("device", d.Phone).Msg("Check device keepalive status")
 	cache := storage.GetDeviceCache()
-	var shouldClear bool
-	err := cache.UpdateDevice(d, func() {
+	var conn net.Conn
+	removed, err := cache.RemoveDeviceIf(d, func() bool {
 		if d.ShouleTurnOffline() {
 			// 保活失效
 			d.Status = model.DeviceStatusOffline
 			log.Debug().Str("device", d.Phone).Msg("Turn offline for device keepalive expired")
-		} else {
-			shouldClear = d.ShouldClear()
+			return false
 		}
+		conn = d.Conn
+		return d.ShouldClear()
 	})
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", d.Phone).Msg("Fail to find device cache")
 		t.Cancel(d)
 		return
 	}
-	if shouldClear {
-		if err = cache.RemoveDevice(d); err == nil {
-			d.Conn.Close()
-			log.Debug().Str("device", d.Phone).Msg("Clear cache and close connection after device being offline for a long time")
-		}
+	if removed {
+		conn.Close()
+		log.Debug().Str("device", d.Phone).Msg("Clear cache and close connection after device being offline for a long time")
 		t.Cancel(d)
 	}
 }
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index adca17c..b0f56c1 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -124,14 +124,23 @@ func (cache *DeviceCache) ViewDevice(phone string, view func(d *model.Device)) e
 
 // 移除设备及其位置信息。只移除这一次注册，不影响之后的新注册
 func (cache *DeviceCache) RemoveDevice(d *model.Device) error {
+	_, err := cache.RemoveDeviceIf(d, func() bool { return true })
+	return err
+}
+
+// 条件成立时移除设备，返回是否移除。判断与移除在同一个临界区内，避免移除刚刚恢复通信的设备
+func (cache *DeviceCache) RemoveDeviceIf(d *model.Device, cond func() bool) (bool, error) {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	if cache.cacheByPhone[d.Phone] != d {
-		return ErrDeviceNotFound
+		return false, ErrDeviceNotFound
+	}
+	if !cond() {
+		return false, nil
 	}
 	cache.delDevice(nil, &d.Phone)
 	GetGeoCache().DelGeoByPhone(d.Phone)
-	return nil
+	return true, nil
 }
 
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
-- 
2.43.0


From 51268a2e9b1e80077c7dc93422678fb898db4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:01 +0000
Subject: [PATCH 26/33] fix: leave out parameter numbers that do not fit
 instead of sending others

---
 internal/protocol/model/device_params.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 8c09a7e..1f33945 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -105,6 +105,12 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 		if s, isStr := p.ParamValue.(string); isStr && s != "" && len(value) == 0 { // 无法编码的字符串
 			return nil, ErrEncodeDeviceParams
 		}
+		if f, isNum := p.ParamValue.(float64); isNum { // 超出参数范围、或不是整数的数值
+			idx := 0
+			if !equalsNumber(fn.decode(value, &idx, len(value)), f) {
+				return nil, ErrEncodeDeviceParams
+			}
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
@@ -129,6 +135,18 @@ type paramFn struct {
 //
 // 所以需要再encode时，将其按照json默认类型推断，再进行强转
 
+func equalsNumber(a any, f float64) bool {
+	switch n := a.(type) {
+	case uint8:
+		return float64(n) == f
+	case uint16:
+		return float64(n) == f
+	case uint32:
+		return float64(n) == f
+	}
+	return false
+}
+
 func any2uint8(a any) uint8 {
 	if b, ok := a.(float64); ok {
 		return uint8(b)
-- 
2.43.0


From f3aaff9309593a3e604d5c4e3a7b99035eda88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:09 +0000
Subject: [PATCH 27/33] fix: a phone number padded with nine F nibbles is no
 longer read as 0

bcd2NumberStr returned "0" whenever the last F was the ninth digit, so all
11-digit numbers padded with F in a 2019 header became the same phone.
---
 internal/codec/hex/hex.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/codec/hex/hex.go b/internal/codec/hex/hex.go
index 87273f9..7363c94 100644
--- a/internal/codec/hex/hex.go
+++ b/internal/codec/hex/hex.go
@@ -54,9 +54,6 @@ func bcd2NumberStr(bcd []byte) string {
 		number += fmt.Sprintf("%02X", i)
 	}
 	pos := strings.LastIndex(number, "F")
-	if pos == 8 {
-		return "0"
-	}
 	return number[pos+1:]
 }
 
-- 
2.43.0


From 25b417a4ae9e4b6e54381138b3d2b9299e772793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:29 +0000
Subject: [PATCH 28/33] fix: the simulated terminal keeps one value per
 parameter from the first setting on

---
 internal/protocol/msg_processor.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 44a641e..2295975 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -435,10 +435,9 @@ func processMsg8103(_ context.Context, data *model.ProcessData) error {
 	paramCache := storage.GetDeviceParamsCache()
 	params, err := paramCache.GetDeviceParamsByPhone(in.GetHeader().PhoneNumber)
 	if errors.Is(err, storage.ErrDeviceParamsNotFound) {
-		params = in.Parameters
-	} else {
-		params.Update(in.Parameters)
+		params = &model.DeviceParams{DevicePhone: in.GetHeader().PhoneNumber}
 	}
+	params.Update(in.Parameters)
 	paramCache.CacheDeviceParams(params)
 
 	return nil
-- 
2.43.0


From 54af0f7440b817db4676963df465f078afb63c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 29/33] =?UTF-8?q?fix:=20=E6=B3=A8=E5=86=8C=E6=97=B6?=
 =?UTF-8?q?=E4=B8=A2=E5=BC=83=E8=AF=A5=E6=89=8B=E6=9C=BA=E5=8F=B7=E6=AE=8B?=
 =?UTF-8?q?=E7=95=99=E7=9A=84=E5=88=86=E5=8C=85=EF=BC=8C=E9=81=BF=E5=85=8D?=
 =?UTF-8?q?=E4=B8=8E=E6=96=B0=E6=B3=A8=E5=86=8C=E7=9A=84=E5=88=86=E5=8C=85?=
 =?UTF-8?q?=E5=90=88=E5=B9=B6?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 internal/storage/device_cache.go  |  1 +
 internal/storage/segment_cache.go | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index b0f56c1..bc0baa8 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -96,6 +96,7 @@ func (cache *DeviceCache) RegisterDevice(d *model.Device) error {
 		return ErrPhoneOccupied
 	}
 	cache.cacheDevice(d)
+	DelSegmentByPhone(d.Phone) // 注册之前残留的分包，不能与新注册的分包合并
 	return nil
 }
 
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index ef4f4e9..0c941a7 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -56,3 +56,15 @@ func CacheSegment(seg *model.Segment) bool {
 	seg.Data = s.Data
 	return true
 }
+
+// 丢弃终端未接收完的分包
+func DelSegmentByPhone(phone string) {
+	cache := getSegmentCache()
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	for key := range cache.cacheByKey {
+		if strings.HasPrefix(key, phone+"/") {
+			delete(cache.cacheByKey, key)
+		}
+	}
+}
-- 
2.43.0


From 89ec1239582c23cb66d91aab1adf59c9556f0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:02 +0000
Subject: [PATCH 30/33] fix: unfinished fragments are kept only for registered
 terminals and dropped with them

Fragments of phone numbers that never register stayed in memory for ever, so a
peer that is not even registered could use up memory without bound.
---
 internal/storage/device_cache.go  |  3 ++-
 internal/storage/segment_cache.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index bc0baa8..ebf6e38 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -123,7 +123,7 @@ func (cache *DeviceCache) ViewDevice(phone string, view func(d *model.Device)) e
 	return nil
 }
 
-// 移除设备及其位置信息。只移除这一次注册，不影响之后的新注册
+// 移除设备及其位置信息、未接收完的分包。只移除这一次注册，不影响之后的新注册
 func (cache *DeviceCache) RemoveDevice(d *model.Device) error {
 	_, err := cache.RemoveDeviceIf(d, func() bool { return true })
 	return err
@@ -141,6 +141,7 @@ func (cache *DeviceCache) RemoveDeviceIf(d *model.Device, cond func() bool) (boo
 	}
 	cache.delDevice(nil, &d.Phone)
 	GetGeoCache().DelGeoByPhone(d.Phone)
+	DelSegmentByPhone(d.Phone)
 	return true, nil
 }
 
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 0c941a7..76494b9 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -26,7 +26,19 @@ func getSegmentCache() *SegmentCache {
 }
 
 // 缓存分包，返回分包是否全部按序到达。到达时，seg.Data为合并后的消息体
+// 只为已注册的终端保留未接收完的分包，随终端移除一起丢弃，避免未注册的终端占用内存
 func CacheSegment(seg *model.Segment) bool {
+	var completed bool
+	err := GetDeviceCache().ViewDevice(seg.Phone, func(*model.Device) {
+		completed = cacheSegment(seg)
+	})
+	if err != nil {
+		return seg.SegNo == 1 && seg.IsComplete()
+	}
+	return completed
+}
+
+func cacheSegment(seg *model.Segment) bool {
 	b := new(strings.Builder)
 	b.WriteString(seg.Phone)
 	b.WriteString("/")
-- 
2.43.0


From 0fb70102b368efc9739231bc37a0a203b32efc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:00 +0000
Subject: [PATCH 31/33] fix: data without an end delimiter is not buffered
 without bound

---
 internal/protocol/frame_handler.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index e5066fd..2ac6f21 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -16,6 +16,9 @@ import (
 const (
 	// 标识位[2] + 消息头[21] + 消息体[1023 * 2(转义预留)]  + 校验码[1] + 标识位[2]
 	MaxFrameLen = 2 + 21 + 1023*2 + 1 + 2
+
+	// 全部转义的消息头、消息体和校验码，更长的不可能是一帧
+	maxFrameContent = (21 + 1023 + 1) * 2
 )
 
 var (
@@ -44,7 +47,7 @@ func NewJT808FrameHandler(conn net.Conn) *JT808FrameHandler {
 }
 
 func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
-	var inMessage bool
+	var inMessage, tooLong bool
 	buf := make([]byte, 0, MaxFrameLen)
 	readBuf := make([]byte, 1)
 	for {
@@ -54,6 +57,10 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			return nil, errors.Wrap(err, "Fail to read stream to framePayload")
 		}
 		if readBuf[0] == 0x7e {
+			if tooLong { // 丢弃超长的数据，继续等待下一帧
+				buf, inMessage, tooLong = buf[:0], false, false
+				continue
+			}
 			if inMessage && len(buf) == 1 {
 				continue // 连续的标识位，以后一个作为起始位，避免帧边界错位
 			}
@@ -68,6 +75,9 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			if inMessage {
 				buf = append(buf, readBuf[0])
 			}
+			if len(buf) > maxFrameContent+1 { // 没有结束位的数据不能无限缓存
+				buf, tooLong = buf[:1], true
+			}
 		}
 	}
 
-- 
2.43.0


From f8d8f28d6acd6bc2a4797fa27c6b2d40f0dfe52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:05 +0000
Subject: [PATCH 32/33] fix: an authentication with values too long for their
 fields is not written with shifted fields

---
 internal/protocol/model/msg_0102.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index 2d50696..2959b60 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -1,6 +1,7 @@
 package model
 
 import (
+	"math"
 	"strings"
 
 	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
@@ -35,6 +36,9 @@ func (m *Msg0102) Encode() (pkt []byte, err error) {
 	if ver == Version2013 || ver == Version2011 {
 		pkt = append(pkt, []byte(m.AuthCode)...)
 	} else if ver == Version2019 {
+		if len(m.AuthCode) > math.MaxUint8 { // 鉴权码长度只有一个字节
+			return nil, ErrEncodeMsg
+		}
 		if m.AuthCodeLen != uint8(len(m.AuthCode)) {
 			m.AuthCodeLen = uint8(len(m.AuthCode))
 		}
@@ -44,12 +48,18 @@ func (m *Msg0102) Encode() (pkt []byte, err error) {
 		var fillByte byte // '\x00'
 		im := []byte(m.IMEI)
 		toFillLen := 15 - len(m.IMEI)
+		if toFillLen < 0 { // 定长，超长截断
+			im = im[:15]
+		}
 		for i := 0; i < toFillLen; i++ {
 			im = append(im, fillByte)
 		}
 		pkt = append(pkt, im...)
 		sv := []byte(m.SoftwareVersion)
 		toFillLen = 20 - len(m.SoftwareVersion)
+		if toFillLen < 0 {
+			sv = sv[:20]
+		}
 		for i := 0; i < toFillLen; i++ {
 			sv = append(sv, fillByte)
 		}
-- 
2.43.0


From e5419e894d149e1feb236a9d3fe8f60bdcfe203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:25 +0000
Subject: [PATCH 33/33] fix: log level FATAL of the configuration was misspelt
 and silently gave DEBUG

---
 internal/config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9a6aa0b..d35b55f 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -16,7 +16,7 @@ import (
 type LogLevelType string
 
 const (
-	LogLevelFatal LogLevelType = "FATAl"
+	LogLevelFatal LogLevelType = "FATAL"
 	LogLevelError LogLevelType = "ERROR"
 	LogLevelWarn  LogLevelType = "WARN"
 	LogLevelInfo  LogLevelType = "INFO"
@@ -189,7 +189,7 @@ func (c *Config) ParseLogConf() *logger.Config {
 		logLevel = int8(zerolog.WarnLevel)
 	case "ERROR":
 		logLevel = int8(zerolog.ErrorLevel)
-	case "FATAl":
+	case "FATAL":
 		logLevel = int8(zerolog.FatalLevel)
 	}
 	return &logger.Config{
-- 
2.43.0

