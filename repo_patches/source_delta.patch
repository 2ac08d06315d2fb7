From 0886da00047ac9a3d0d3a89cf74c0f369ea338d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:11 +0000
Subject: [PATCH 01/37] fix: ring block buffer must not forget blocks discarded
 by an earlier growth

A second growth before the blocks left behind by the first were released
overwrote the counter, so later releases freed live blocks.
---
 collections/buffer_rb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..97e3133 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -82,10 +82,12 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		// 之前扩容丢弃的block可能还未释放, 累加计数
+		discardCount := bufio.MaxInt(r.blocks.Size()-1, 0)
+		for i := 0; i < discardCount; i++ {
 			r.blocks.Pop()
 		}
+		r.discardBlockCount += discardCount
 	}
 
 	bytes := r.data[tail : tail+size]
-- 
2.43.0


From 07b7c2df1bcd17968f5f10e53e55994d8ac70586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:14 +0000
Subject: [PATCH 02/37] fix: ring block buffer must keep a gap between wrapped
 tail and head

When a wrapped block ended exactly at the oldest unreleased block the buffer
looked as if it had not wrapped, and the next write overwrote live data.
---
 collections/buffer_rb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 97e3133..d27f1c1 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -59,12 +59,13 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		r.blocks.Push(oldBlock)
 	}
 
+	// head和tail相等视为没有回环, 所以回环后不能写满, 否则会覆盖还未释放的block
 	over := tail < head
-	if over && head-tail >= size {
+	if over && head-tail > size {
 		// 已经回环, 并且头部有大小合适的内存空间
 	} else if !over && r.capacity-tail >= size {
 		// 尾部有大小合适的内存空间
-	} else if !over && head >= oldBlock.size+size {
+	} else if !over && head > oldBlock.size+size {
 		// 形成回环, 尾部空间不够, 但是头部空间足够
 
 		// 修改有效内存容量大小, 前一个完整block的结束位置
-- 
2.43.0


From c1291451cc78a498e1dbbb2045b81da19e7de41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:18 +0000
Subject: [PATCH 03/37] fix: ring block buffer can drop a newest block left
 behind by growth

---
 collections/buffer_rb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index d27f1c1..6ed8a5d 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -112,6 +112,18 @@ func (r *RBBlockBuffer) Pop() {
 	}
 }
 
+func (r *RBBlockBuffer) PopBack() {
+	utils.Assert(!r.sealed)
+
+	// 剩余的block都已在扩容时丢弃
+	if r.blocks.IsEmpty() && r.discardBlockCount > 0 {
+		r.discardBlockCount--
+		return
+	}
+
+	r.DirectBlockBuffer.PopBack()
+}
+
 func (r *RBBlockBuffer) Clear() {
 	r.DirectBlockBuffer.Clear()
 	r.capacity = cap(r.data)
-- 
2.43.0


From 55630764e6d9030f17421c018920e4779d8ded8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:21 +0000
Subject: [PATCH 04/37] fix: block buffer split off starts empty and owns the
 free memory alone

The new buffer started at the old offset inside the already shortened slice,
and the original kept the free memory it had handed over.
---
 collections/buffer_direct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..d1ef900 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -122,14 +122,16 @@ func (b *DirectBlockBuffer) Size() int {
 
 func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 	b.sealed = true
+	free := b.data[b.nextOffset:]
+	// 空闲内存已转移, 当前BlockBuffer在Clear后也不能再使用
+	b.data = b.data[:b.nextOffset:b.nextOffset]
 	return &DirectBlockBuffer{
-		data: b.data[b.nextOffset:],
+		data: free,
 		blocks: NewQueue[*struct {
 			index     int
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
 	}
 }
 
-- 
2.43.0


From 74ea13ef4384add941388fa401fd01c3ec3b341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:25 +0000
Subject: [PATCH 05/37] fix: split ring block buffer is sealed and shares no
 memory with the new buffer

---
 collections/buffer_rb.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 6ed8a5d..3f5300d 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -22,6 +22,8 @@ func (r *RBBlockBuffer) Write(data []byte) {
 }
 
 func (r *RBBlockBuffer) Alloc(size int) []byte {
+	utils.Assert(!r.sealed)
+
 	head, tail := 0, 0
 	var oldBlock *struct {
 		index     int
@@ -130,6 +132,12 @@ func (r *RBBlockBuffer) Clear() {
 	r.discardBlockCount = 0
 }
 
+// SplitOff 环形缓冲区的空闲内存不连续, 新的BlockBuffer使用独立的内存
+func (r *RBBlockBuffer) SplitOff() BlockBuffer {
+	r.sealed = true
+	return NewDirectBlockBuffer(cap(r.data))
+}
+
 func (r *RBBlockBuffer) Data() ([]byte, []byte) {
 	return nil, nil
 }
-- 
2.43.0


From e50ff5cde51a46b0cb13583f8b90bce172a08568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 06/37] fix: stream pipeline accepts any first stream index

---
 streams_buffer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..e37ff55 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,8 +10,7 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
-	if !exist {
+	for index >= len(s.buffers) {
 		if utils.AVMediaTypeVideo == mediaType {
 			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
 		} else {
-- 
2.43.0


From 4e528eb2917517f24117d53705cb951d7ec0d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:20 +0000
Subject: [PATCH 07/37] fix: demuxer must not mix packets of different tracks

The first packet of a track announced after another track that has not seen a
packet yet was queued in the other track's list.
---
 demuxer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..2108c0f 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -252,15 +252,12 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 回调AVPacket, 如果没有完成探测, 则保存到Packets中, 否则回调处理
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
-	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	// 后创建的track可能先收到packet, 保证每个track都有自己的列表
+	for packet.Index >= len(s.Packets) {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
 
+	packets := s.Packets[packet.Index]
 	packets.Add(packet)
 
 	prevPacketIndex := packets.Size() - 2
-- 
2.43.0


From eae5c2aaa163ed2615c5163c7f9ae0d96f102206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:23 +0000
Subject: [PATCH 08/37] fix: packets parked with equal decode time keep their
 arrival order

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 2108c0f..a02956c 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -463,7 +463,7 @@ func (s *BaseDemuxer) OnProbeComplete() {
 	}
 
 	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From fdfa6206718e931d8f818ea72d275dc66ec3174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:26 +0000
Subject: [PATCH 09/37] fix: tentative probe completion waits for PCM/G726
 tracks without any packet

---
 demuxer.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index a02956c..5b601d4 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -493,14 +493,10 @@ func (s *BaseDemuxer) TryCompleteProbe() {
 			continue
 		}
 
-		for i, packets := range s.Packets {
-			if i == track.GetStream().Index && packets.Size() < 2 {
-				needMoreData = true
-				break
-			}
-		}
-
-		if needMoreData {
+		// 还没有收到packet的track, 可能没有对应的列表
+		index := track.GetStream().Index
+		if index >= len(s.Packets) || s.Packets[index].Size() < 2 {
+			needMoreData = true
 			break
 		}
 	}
-- 
2.43.0


From a40c42f63385e2de883eab144a74a0a0fead8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:30 +0000
Subject: [PATCH 10/37] fix: unknown PCM packet size keeps the sample rate of
 the track

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 5b601d4..4131b8c 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -358,7 +358,7 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 			continue
 		}
 
-		var sampleRate = track.GetStream().SampleSize
+		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
 			sampleRate = 8000
-- 
2.43.0


From afc5ce553d6bb6431d598cd606951648286adec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:50 +0000
Subject: [PATCH 11/37] fix: negative signed Exp-Golomb values decode to their
 two's complement

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..8c08d94 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -83,7 +83,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 2e42c1a9128eb1e224aff2d8940bc69b1cfb0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:54 +0000
Subject: [PATCH 12/37] fix: Golomb reader accepts readers returning data with
 EOF or nothing at all

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 8c08d94..c1f7a41 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (self *GolombBitReader) ReadBit() (res uint, err error) {
 	if self.left == 0 {
-		if _, err = self.R.Read(self.buf[:]); err != nil {
+		if _, err = io.ReadFull(self.R, self.buf[:]); err != nil {
 			return
 		}
 		self.left = 8
-- 
2.43.0


From 44d4721a62887882dd36a19232b73e44e2d1278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:58 +0000
Subject: [PATCH 13/37] fix: byte reader rejects a negative size instead of
 panicking

---
 bufio/bytes_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bufio/bytes_reader.go b/bufio/bytes_reader.go
index 2c5a365..59b99bf 100644
--- a/bufio/bytes_reader.go
+++ b/bufio/bytes_reader.go
@@ -2,6 +2,7 @@ package bufio
 
 import (
 	"encoding/binary"
+	"fmt"
 )
 
 type BytesReader interface {
@@ -66,6 +67,10 @@ func (b *bytesReader) ReadUint64() (uint64, error) {
 }
 
 func (b *bytesReader) ReadBytes(size int) ([]byte, error) {
+	if size < 0 {
+		return nil, fmt.Errorf("negative read size %d", size)
+	}
+
 	tmp := b.offset
 	if err := b.peekN(size); err != nil {
 		return nil, err
-- 
2.43.0


From 5e6ad2de3a57920440b0ecc343fcc6a33ae5067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 14/37] fix: H.264 SPS parsing skips emulation prevention bytes

---
 avc/sps.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..7b68d64 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -27,7 +27,8 @@ type SPS struct {
 }
 
 func ParseSPS(data []byte) (s SPS, err error) {
-	data = RemoveStartCode(data)
+	// 去掉防竞争字节
+	data = nal2rbsp(RemoveStartCode(data))
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
@@ -343,6 +344,10 @@ func ParseSPS(data []byte) (s SPS, err error) {
 	return
 }
 
+func nal2rbsp(nal []byte) []byte {
+	return bytes.Replace(nal, []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0}, -1)
+}
+
 func NewCodecDataFromAVCDecoderConfigurationRecord(record []byte) (*AVCDecoderConfigurationRecord, *SPS, error) {
 	recordInfo := AVCDecoderConfigurationRecord{}
 	if err := recordInfo.Unmarshal(record); err != nil {
-- 
2.43.0


From f9d5b8b6818693ba42712597417f5885eea913db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:29 +0000
Subject: [PATCH 15/37] fix: H.264 SPS chroma formats, field coding and all
 high profiles

Crop offsets are in units that depend on the chroma format and on field
coding, 4:4:4 streams code 12 scaling lists, and the profiles 128, 138, 139,
134 and 135 carry the chroma syntax too.
---
 avc/sps.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index 7b68d64..6389cbb 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -55,19 +55,24 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	// 没有chroma_format_idc字段时, 默认4:2:0
+	chroma_format_idc := uint(1)
+	separate_colour_plane_flag := uint(0)
+
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
 
 		if chroma_format_idc == 3 {
-			// residual_colour_transform_flag
-			if _, err = r.ReadBit(); err != nil {
+			if separate_colour_plane_flag, err = r.ReadBit(); err != nil {
 				return
 			}
 		}
@@ -91,7 +96,12 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			scalingListCount := 8
+			if chroma_format_idc == 3 {
+				scalingListCount = 12
+			}
+
+			for i := 0; i < scalingListCount; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
@@ -215,8 +225,19 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	// 裁剪单位由色度格式和扫描方式决定(7.4.2.1.1)
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if separate_colour_plane_flag == 0 {
+		if chroma_format_idc == 1 || chroma_format_idc == 2 {
+			cropUnitX = 2
+		}
+		if chroma_format_idc == 1 {
+			cropUnitY *= 2
+		}
+	}
+
+	s.Width = int((s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From d66b2c6d3992595059e4e5bc1609f93cb1f17663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:33 +0000
Subject: [PATCH 16/37] fix: H.264 SPS without tick unit has no frame rate

---
 avc/sps.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index 6389cbb..16dc077 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -350,7 +350,9 @@ func ParseSPS(data []byte) (s SPS, err error) {
 			if err != nil {
 				return s, err
 			}
-			s.FPS = int(math.Floor(float64(time_scale) / float64(num_units_in_tick) / 2.0))
+			if num_units_in_tick > 0 {
+				s.FPS = int(math.Floor(float64(time_scale) / float64(num_units_in_tick) / 2.0))
+			}
 			fixed_frame_rate_flag, err := r.ReadBit()
 			if err != nil {
 				return s, err
-- 
2.43.0


From 43755693483b2dcd61e0f94e4245ac2304f1c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:37 +0000
Subject: [PATCH 17/37] fix: H.265 picture size honours the conformance window

---
 hevc/sps.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..ad9ff25 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -64,8 +64,9 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	ctx.chromaFormat = uint(cf)
+	var separateColourPlaneFlag uint
 	if ctx.chromaFormat == 3 {
-		if _, err = br.ReadBit(); err != nil {
+		if separateColourPlaneFlag, err = br.ReadBit(); err != nil {
 			return
 		}
 	}
@@ -82,18 +83,27 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
-		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
-		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+		// left/right/top/bottom
+		var offsets [4]uint
+		for i := range offsets {
+			if offsets[i], err = br.ReadExponentialGolombCode(); err != nil {
+				return
+			}
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+
+		// 偏移单位由色度格式决定(7.4.3.2.1)
+		subWidthC, subHeightC := uint(1), uint(1)
+		if separateColourPlaneFlag == 0 {
+			if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+				subWidthC = 2
+			}
+			if ctx.chromaFormat == 1 {
+				subHeightC = 2
+			}
 		}
+
+		ctx.Width -= int((offsets[0] + offsets[1]) * subWidthC)
+		ctx.Height -= int((offsets[2] + offsets[3]) * subHeightC)
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From e5134edc84281396784e4b03cee4e5ac5b10dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:40 +0000
Subject: [PATCH 18/37] fix: HEVC record parsing must not mix PPS into the SPS
 list

---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..fca11c2 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -189,7 +189,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From dc58d1c86279848ab7c2d3976682a9bdb13fd37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:11 +0000
Subject: [PATCH 19/37] fix: configuration records and extra data are not
 limited to 1024 bytes

---
 avc/mp4.go  | 26 ++++++++++++++++++++++++--
 hevc/mp4.go | 27 +++++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..26883ab 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,7 +47,22 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	if len(spsList) > 0x1F || len(ppsList) > 0xFF {
+		return nil, fmt.Errorf("too many parameter sets sps: %d pps: %d", len(spsList), len(ppsList))
+	}
+
+	// 5字节头 + sps和pps数量 + 每个参数集2字节长度
+	capacity := 7
+	for _, list := range [][][]byte{spsList, ppsList} {
+		for _, data := range list {
+			if len(data) > 0xFFFF {
+				return nil, fmt.Errorf("parameter set too long: %d", len(data))
+			}
+			capacity += 2 + len(data)
+		}
+	}
+
+	bytes := make([]byte, capacity)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
 		return nil, err
@@ -176,7 +191,14 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	var capacity int
+	for _, list := range [][][]byte{record.SPSList, record.PPSList} {
+		for _, nalu := range list {
+			capacity += len(nalu)
+		}
+	}
+
+	bytes := make([]byte, capacity)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.SPSList {
diff --git a/hevc/mp4.go b/hevc/mp4.go
index fca11c2..4188758 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -83,7 +83,23 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 		return nil, fmt.Errorf("vps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	// 23字节头 + 每种参数集3字节头 + 每个参数集2字节长度
+	capacity := 23
+	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		if len(list) > 0xFFFF {
+			return nil, fmt.Errorf("too many parameter sets: %d", len(list))
+		}
+
+		capacity += 3
+		for _, data := range list {
+			if len(data) > 0xFFFF {
+				return nil, fmt.Errorf("parameter set too long: %d", len(data))
+			}
+			capacity += 2 + len(data)
+		}
+	}
+
+	bytes := make([]byte, capacity)
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
@@ -214,7 +230,14 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	var capacity int
+	for _, list := range [][][]byte{record.VPSList, record.SPSList, record.PPSList} {
+		for _, nalu := range list {
+			capacity += len(nalu)
+		}
+	}
+
+	bytes := make([]byte, capacity)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.VPSList {
-- 
2.43.0


From 314575475565ddb9c6ee0337ac5e44fe2dc5a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:14 +0000
Subject: [PATCH 20/37] fix: M4VCExtraDataToAnnexB rejects cut-off records and
 keeps every PPS

The hand-written loop sliced past the end of malformed records and never
reached the PPS when there was more than one SPS.
---
 avc/util.go | 44 +-------------------------------------------
 1 file changed, 1 insertion(+), 43 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..d7ac46e 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -253,49 +253,7 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 }
 
 func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
-	reader := bufio.NewBytesReader(src)
-
-	//unsigned int(8) configurationVersion = 1;
-	//unsigned int(8) AVCProfileIndication;
-	//unsigned int(8) profile_compatibility;
-	//unsigned int(8) AVCLevelIndication;
-	if err := reader.Seek(4); err != nil {
-		return nil, err
-	}
-
-	readUint8, err := reader.ReadUint8()
-	if err != nil {
-		return nil, err
-	}
-
-	readUint8 &= 0x3 + 1
-	unitNb, err := reader.ReadUint8()
-	unitNb &= 0x1f
-
-	spsDone := 0
-	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
-	for unitNb != 0 {
-		unitNb--
-
-		var size uint16
-		size, err = reader.ReadUint16()
-		if err != nil {
-			return nil, err
-		} else if err = writer.Write(StartCode4); err != nil {
-			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
-			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
-			return nil, err
-		}
-
-		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
-			unitNb, _ = reader.ReadUint8()
-		}
-	}
-
-	return writer.WrittenBytes(), nil
+	return ExtraDataToAnnexB(src)
 }
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
-- 
2.43.0


From 7ccecb5092627155ef7828a4f510e0f598953161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:17 +0000
Subject: [PATCH 21/37] fix: AnnexB2AVCC keeps units starting with a zero byte
 and drops empty ones

---
 avc/util.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index d7ac46e..804880c 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -190,11 +190,15 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 	}
 
 	for nalStart < length {
-		// 跳过开头空包(连续0000000100000001)
-		for nalStart < length && annexB[nalStart] == 0 {
-			nalStart++
+		// 跳过开头空包(连续0000000100000001), 单独的0可能是NalUHeader(H265 TRAIL_N)
+		zeroEnd := nalStart
+		for zeroEnd < length && annexB[zeroEnd] == 0 {
+			zeroEnd++
 		}
-		if nalStart >= length {
+		if zeroEnd-nalStart > 1 && zeroEnd < length && annexB[zeroEnd] == 1 {
+			nalStart = zeroEnd + 1
+			continue
+		} else if zeroEnd >= length {
 			break
 		}
 
-- 
2.43.0


From db5c596ca0bc54c9df4929dc0605e6815c1a5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:47 +0000
Subject: [PATCH 22/37] fix: short and empty NAL units no longer panic
 splitters and serialisers

---
 avc/mp4.go   | 11 ++++++++---
 avc/util.go  | 17 +++++++++++++++--
 hevc/mp4.go  |  7 ++++---
 hevc/util.go |  4 ++++
 4 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index 26883ab..38956ac 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -55,10 +55,11 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 	capacity := 7
 	for _, list := range [][][]byte{spsList, ppsList} {
 		for _, data := range list {
-			if len(data) > 0xFFFF {
-				return nil, fmt.Errorf("parameter set too long: %d", len(data))
+			size := len(RemoveStartCode(data))
+			if size > 0xFFFF {
+				return nil, fmt.Errorf("parameter set too long: %d", size)
 			}
-			capacity += 2 + len(data)
+			capacity += 2 + size
 		}
 	}
 
@@ -99,6 +100,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		}
 	}
 
+	if len(noStartCodeSps) < 4 {
+		return nil, fmt.Errorf("sps too short: %d", len(noStartCodeSps))
+	}
+
 	bytes[0] = 1
 	bytes[1] = noStartCodeSps[1]
 	bytes[2] = noStartCodeSps[2]
diff --git a/avc/util.go b/avc/util.go
index 804880c..3cf6c11 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -261,6 +261,14 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 }
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
+	// 不足以包含start code
+	if len(data) < 3 {
+		if len(data) > 0 {
+			cb(data)
+		}
+		return
+	}
+
 	var offset int
 	// +3查找第二个nalu
 	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
@@ -274,11 +282,12 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
+	length := len(data)
+	if length < 3 || data[0] != 0 || data[1] != 0 {
 		return data
 	} else if data[2] == 0x1 {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if length > 3 && data[2] == 0x0 && data[3] == 0x1 {
 		return data[4:]
 	}
 
@@ -292,6 +301,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/mp4.go b/hevc/mp4.go
index 4188758..8abf3eb 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -92,10 +92,11 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 		capacity += 3
 		for _, data := range list {
-			if len(data) > 0xFFFF {
-				return nil, fmt.Errorf("parameter set too long: %d", len(data))
+			size := len(avc.RemoveStartCode(data))
+			if size == 0 || size > 0xFFFF {
+				return nil, fmt.Errorf("bad parameter set size: %d", size)
 			}
-			capacity += 2 + len(data)
+			capacity += 2 + size
 		}
 	}
 
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..1297590 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From d583e27f6de15195ab9f35ff313078b1f48a0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:51 +0000
Subject: [PATCH 23/37] fix: short AAC headers are rejected with an error
 instead of a panic

---
 demuxer.go        | 1 -
 utils/aac_util.go | 8 ++++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 4131b8c..3cf40fb 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -105,7 +105,6 @@ func (s *BaseDemuxer) createAudioTrack(bufferIndex int, id utils.AVCodecID, time
 	}
 
 	if utils.AVCodecIdAAC == id && !config.HasADTSHeader {
-		utils.Assert(extraData != nil)
 		mpeg4AudioConfig, err := utils.ParseMpeg4AudioConfig(extraData)
 		if err != nil {
 			println(err.Error())
diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..288265d 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -217,6 +217,10 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
+
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
@@ -245,6 +249,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 }
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	//audio specific config
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
-- 
2.43.0


From b62dc6f7dd3cf8b5692969bb738003122b7330ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:54 +0000
Subject: [PATCH 24/37] fix: GetSampleRateIndex looks a rate up instead of an
 index

---
 utils/aac_util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 288265d..18d9e92 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -180,8 +180,17 @@ func GetSampleRateFromFrequency(index int) (int, bool) {
 	return i, ok
 }
 
+// GetSampleRateIndex 返回采样率对应的索引, 非标准采样率返回-1
 func GetSampleRateIndex(rate int) int {
-	return audioSamplingRates[rate]
+	if rate > 0 {
+		for index, v := range audioSamplingRates {
+			if v == rate {
+				return index
+			}
+		}
+	}
+
+	return -1
 }
 
 func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
-- 
2.43.0


From 7ea83d1a4add82b58b02a0179d24ab329d1e9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:13 +0000
Subject: [PATCH 25/37] fix: AudioSpecificConfig with escaped object type or
 explicit sampling rate

---
 utils/aac_util.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 18d9e92..f52deda 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"encoding/binary"
 	"fmt"
+	"github.com/lkmio/avformat/bufio"
 )
 
 type AudioObjectType int
@@ -264,13 +265,21 @@ func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
 
 	//audio specific config
 	config := &MPEG4AudioConfig{}
-	config.ObjectType = int(data[0] >> 3)
+	reader := bufio.BitsReader{Data: data}
+	config.ObjectType = int(reader.Read(5))
 	if AudioObjectType(config.ObjectType) == AotEscape {
-		//config.ObjectType = 32+bits6
+		config.ObjectType = 32 + int(reader.Read(6))
 	}
-	config.SamplingIndex = int((data[0] & 7 << 1) | data[1]>>7)
+	config.SamplingIndex = int(reader.Read(4))
 	config.SampleRate = audioSamplingRates[(config.SamplingIndex)]
-	config.ChanConfig = int(data[1] >> 3 & 0xF)
+	// 采样率不在表中, 24位显示指定
+	if config.SamplingIndex == 0xF {
+		config.SampleRate = int(reader.Read(24))
+	}
+	config.ChanConfig = int(reader.Read(4))
+	if reader.Offset > len(data)*8 {
+		return nil, fmt.Errorf("need more data")
+	}
 	if config.ChanConfig >= len(mpeg4AudioChannels) {
 		return nil, fmt.Errorf("invalid data")
 	}
-- 
2.43.0


From cfb48e795ddf08df32f193174df3263dbb38038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 26/37] fix: AAC tracks report the channel count, not the ADTS
 channel configuration

Configuration 7 means eight channels; reserved sampling indices are rejected
instead of producing a track with a negative rate.
---
 video_stream.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..d8baedd 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,17 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
-		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
+		config, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		} else if config.SampleRate < 1 {
+			return nil, -1, AudioConfig{}, fmt.Errorf("invalid sampling frequency index %d", header.Frequency())
+		}
 
 		return extraData, skip, AudioConfig{
-			SampleRate:    rate,
+			SampleRate:    config.SampleRate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      config.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From ab365153bac83e927779c619d44885115b2e92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:29 +0000
Subject: [PATCH 27/37] fix: AudioSpecificConfig with a reserved sampling index
 is invalid data

---
 utils/aac_util.go | 2 +-
 video_stream.go   | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index f52deda..ac3ebf9 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -280,7 +280,7 @@ func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
 	if reader.Offset > len(data)*8 {
 		return nil, fmt.Errorf("need more data")
 	}
-	if config.ChanConfig >= len(mpeg4AudioChannels) {
+	if config.SampleRate < 1 || config.ChanConfig >= len(mpeg4AudioChannels) {
 		return nil, fmt.Errorf("invalid data")
 	}
 
diff --git a/video_stream.go b/video_stream.go
index d8baedd..74b960a 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -89,8 +89,6 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 		config, err := utils.ParseMpeg4AudioConfig(extraData)
 		if err != nil {
 			return nil, -1, AudioConfig{}, err
-		} else if config.SampleRate < 1 {
-			return nil, -1, AudioConfig{}, fmt.Errorf("invalid sampling frequency index %d", header.Frequency())
 		}
 
 		return extraData, skip, AudioConfig{
-- 
2.43.0


From 9b46ab526fa20393d3a6a74ca89f4f89cfa08648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:59 +0000
Subject: [PATCH 28/37] fix: extra data is inserted once, not before every IDR
 slice

---
 avc/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 3cf6c11..207117b 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -165,6 +165,8 @@ func AVCC2AnnexB(dst []byte, avcc []byte, extra []byte) int {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen && len(extra) > 0 {
 				outSize += copyNalUWithBytes(dst[outSize:], extra, outSize, false)
+				// 只在第一个IDR前面插入一次
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		case H264NalSEI:
@@ -246,6 +248,8 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen {
 				outSize += copyNalU(writer, extra, outSize, false)
+				// 只在第一个IDR前面插入一次
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		}
-- 
2.43.0


From 387df2f8350da129bb01f30d68c7e42b59ce1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 29/37] fix: length-prefixed packets convert for every length
 size, and never panic

H.264 streams with 1, 2 or 3 byte length fields were misread, H.265 ones could
outgrow the destination, and missing codec data or damaged H.265 packets
panicked. Configurations built from parameter sets now name the 4 byte length
field their record is written with.
---
 avc/util.go        | 12 ++++++++++--
 codec_paraments.go | 12 +++++++-----
 packet_utils.go    | 35 ++++++++++++++++++++++++++++-------
 3 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 207117b..6f871ca 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -145,11 +145,19 @@ func copyNalU(writer bufio.BytesWriter, data []byte, outSize int, append bool) i
 }
 
 func AVCC2AnnexB(dst []byte, avcc []byte, extra []byte) int {
+	return AVCC2AnnexBWithLengthSize(dst, avcc, extra, 4)
+}
+
+// AVCC2AnnexBWithLengthSize lengthSize-nalu长度字段的字节数
+func AVCC2AnnexBWithLengthSize(dst []byte, avcc []byte, extra []byte, lengthSize int) int {
 	length := len(avcc)
 	outSize, spsSeen, ppsSeen := 0, false, false
 
-	for index := 4; index < length; index += 4 {
-		size := int(binary.BigEndian.Uint32(avcc[index-4:]))
+	for index := lengthSize; index < length; index += lengthSize {
+		var size int
+		for _, b := range avcc[index-lengthSize : index] {
+			size = size<<8 | int(b)
+		}
 		if size == 0 || length-index < size {
 			return outSize
 		}
diff --git a/codec_paraments.go b/codec_paraments.go
index 1ec9df4..0966cba 100644
--- a/codec_paraments.go
+++ b/codec_paraments.go
@@ -160,8 +160,9 @@ func NewAVCCodecData(sps, pps []byte) (CodecData, error) {
 	}
 
 	recordInfo := avc.AVCDecoderConfigurationRecord{
-		SPSList: make([][]byte, 1),
-		PPSList: make([][]byte, 1),
+		LengthSizeMinusOne: 3, // 和Marshal保持一致
+		SPSList:            make([][]byte, 1),
+		PPSList:            make([][]byte, 1),
 	}
 
 	recordInfo.SPSList[0] = sps
@@ -185,9 +186,10 @@ func NewHEVCCodecData(vps, sps, pps []byte) (CodecData, error) {
 	}
 
 	recordInfo := hevc.HEVCDecoderConfigurationRecord{
-		VPSList: make([][]byte, 1),
-		SPSList: make([][]byte, 1),
-		PPSList: make([][]byte, 1),
+		LengthSizeMinusOne: 4, // Unmarshal保存的是长度字段的字节数
+		VPSList:            make([][]byte, 1),
+		SPSList:            make([][]byte, 1),
+		PPSList:            make([][]byte, 1),
 	}
 
 	recordInfo.VPSList[0] = vps
diff --git a/packet_utils.go b/packet_utils.go
index 310a976..61c9ec3 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -42,12 +42,19 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		var n int
 		var bytes []byte
 
-		var extraDataSize int
+		var extraData []byte
 		if pkt.Key && stream.CodecParameters != nil {
-			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
+			extraData = stream.CodecParameters.AnnexBExtraData()
 		}
 
+		extraDataSize := len(extraData)
+		lengthSize := nalLengthSize(stream)
 		dstSize := extraDataSize + len(pkt.Data) + 256
+		// 长度字段小于start code, 每个nalu都会变长
+		if lengthSize < 4 {
+			dstSize += (len(pkt.Data)/(lengthSize+1) + 1) * (4 - lengthSize)
+		}
+
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
@@ -55,18 +62,19 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		}
 
 		if utils.AVCodecIdH264 == pkt.CodecID {
-			n = avc.AVCC2AnnexB(bytes[extraDataSize:], pkt.Data, nil)
+			n = avc.AVCC2AnnexBWithLengthSize(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
-			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
+			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
-				panic(err)
+				// 数据损坏, 丢弃
+				println(err.Error())
+				n = 0
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+		copy(bytes[:extraDataSize], extraData)
 		n += extraDataSize
 		pkt.dataAnnexB = bytes[:n]
 	}
@@ -74,6 +82,19 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 	return pkt.dataAnnexB
 }
 
+// nalLengthSize 返回AVCC打包的nalu长度字段的字节数
+func nalLengthSize(stream *AVStream) int {
+	switch data := stream.CodecParameters.(type) {
+	case *AVCCodecData:
+		return int(data.Record.LengthSizeMinusOne) + 1
+	case *HEVCCodecData:
+		// HEVC Record保存的是字节数
+		return int(data.Record.LengthSizeMinusOne)
+	default:
+		return 4
+	}
+}
+
 func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 	utils.Assert(utils.AVMediaTypeVideo == pkt.MediaType)
 
-- 
2.43.0


From ea671f3456dd7b2f71af3c886b045e9620b1383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:25 +0000
Subject: [PATCH 30/37] fix: Annex-B packets with many units fit their buffer,
 empty ones do not panic

---
 packet_utils.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 61c9ec3..5a53a8e 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -1,6 +1,7 @@
 package avformat
 
 import (
+	"bytes"
 	"github.com/lkmio/avformat/avc"
 	"github.com/lkmio/avformat/hevc"
 	"github.com/lkmio/avformat/utils"
@@ -18,7 +19,9 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			extraNalU := avc.RemoveStartCode(extraData)
+			nalU := avc.RemoveStartCode(pkt.Data)
+			if len(extraNalU) > 0 && len(nalU) > 0 && extraNalU[0] != nalU[0] {
 				size := len(extraData) + len(pkt.Data)
 				var data []byte
 				if pkt.OnBufferAlloc != nil {
@@ -101,16 +104,17 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 	if PacketTypeAnnexB != pkt.PacketType || (pkt.CodecID != utils.AVCodecIdH264 && pkt.CodecID != utils.AVCodecIdH265) {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
-		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		var dst []byte
+		// 3字节的start code转为4字节长度, 每个nalu都会变长
+		dstSize := len(pkt.Data) + bytes.Count(pkt.Data, avc.StartCode3) + 256
 		if pkt.OnBufferAlloc != nil {
-			bytes = pkt.OnBufferAlloc(dstSize)
+			dst = pkt.OnBufferAlloc(dstSize)
 		} else {
-			bytes = make([]byte, dstSize)
+			dst = make([]byte, dstSize)
 		}
 
-		n := avc.AnnexB2AVCC(bytes, pkt.Data)
-		pkt.dataAVCC = bytes[:n]
+		n := avc.AnnexB2AVCC(dst, pkt.Data)
+		pkt.dataAVCC = dst[:n]
 	}
 
 	return pkt.dataAVCC
-- 
2.43.0


From 01ea67eb9613150baff22faefee947f0724ed298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:44 +0000
Subject: [PATCH 31/37] fix: dump files are truncated and readable by their
 owner

The mode was decimal 132 (octal 0204), and an existing longer file kept its
old tail.
---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index e374151..7ffdb92 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 8e356e94a244093d9d330a94d051891b460a8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 32/37] fix: serialised HEVC records carry profile, tier, level
 and format of the SPS

---
 hevc/mp4.go | 16 ++++++++++++++++
 hevc/sps.go |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index 8abf3eb..0439b51 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -102,8 +102,24 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 	bytes := make([]byte, capacity)
 	bytes[0] = 1
+	// reserved
+	bytes[13] = 0xF0
+	bytes[15] = 0xFC
+	bytes[16] = 0xFC
+	bytes[17] = 0xF8
+	bytes[18] = 0xF8
 	bytes[21] = 3
 	bytes[22] = 3
+
+	// profile/tier/level等信息从sps中获取, profile_tier_level紧跟在rbsp的第1个字节之后
+	if info, err := ParseSPS(spsList[0]); err == nil {
+		copy(bytes[1:13], nal2rbsp(avc.RemoveStartCode(spsList[0])[2:])[1:])
+		bytes[16] |= byte(info.chromaFormat & 0x3)
+		bytes[17] |= byte(info.bitDepthLumaMinus8 & 0x7)
+		bytes[18] |= byte(info.bitDepthChromaMinus8 & 0x7)
+		bytes[21] |= byte(info.numTemporalLayers&0x7)<<3 | byte(info.temporalIdNested&0x1)<<2
+	}
+
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(23); err != nil {
 		return nil, err
diff --git a/hevc/sps.go b/hevc/sps.go
index ad9ff25..830a42a 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -110,7 +110,7 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 	if bdlm8, err = br.ReadExponentialGolombCode(); err != nil {
 		return
 	}
-	ctx.bitDepthChromaMinus8 = uint(bdlm8)
+	ctx.bitDepthLumaMinus8 = uint(bdlm8)
 	var bdcm8 uint
 	if bdcm8, err = br.ReadExponentialGolombCode(); err != nil {
 		return
-- 
2.43.0


From 20cc85d062cbd392cd0809b178f7a40f932a4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 33/37] fix: the linked list refuses negative indices

After the last element was removed, Get(-1) and Remove(-1) ran off the end of
the list into the removed node and returned its element.
---
 collections/linked_list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/linked_list.go b/collections/linked_list.go
index 0a90ad6..4eba0b6 100644
--- a/collections/linked_list.go
+++ b/collections/linked_list.go
@@ -27,7 +27,7 @@ func (l *LinkedList[T]) Add(data T) {
 }
 
 func (l *LinkedList[T]) Remove(index int) T {
-	utils.Assert(index < l.size)
+	utils.Assert(index >= 0 && index < l.size)
 
 	prevNode := l.fist
 	offsetNode := l.fist
@@ -58,7 +58,7 @@ func (l *LinkedList[T]) Remove(index int) T {
 }
 
 func (l *LinkedList[T]) Get(index int) T {
-	utils.Assert(index < l.size)
+	utils.Assert(index >= 0 && index < l.size)
 
 	offsetNode := l.fist
 	for i := 0; i < l.size; i++ {
-- 
2.43.0


From d7bb4be3ad1fd49e2e6d8abdbb237b4e630def44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:25 +0000
Subject: [PATCH 34/37] fix: wide random ranges do not overflow

RandomIntInRange(0, math.MaxInt) and every wider range panicked inside
rand.Intn, because max-min+1 overflows.
---
 utils/random_util.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/utils/random_util.go b/utils/random_util.go
index 1d47be8..ef9273c 100644
--- a/utils/random_util.go
+++ b/utils/random_util.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"math"
 	"math/rand"
 	"time"
 )
@@ -24,5 +25,17 @@ func RandomIntInRange(min, max int) int {
 	}
 
 	rand.Seed(time.Now().UnixNano())
-	return rand.Intn(max-min+1) + min
+	// max-min+1可能溢出int
+	n := uint64(max) - uint64(min) + 1
+	if n == 0 {
+		return int(rand.Uint64())
+	} else if n > math.MaxInt {
+		for {
+			if v := rand.Uint64(); v < n {
+				return int(uint64(min) + v)
+			}
+		}
+	}
+
+	return rand.Intn(int(n)) + min
 }
-- 
2.43.0


From 40dde7f89a578551ada7d567f5eac0677e48301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 35/37] fix: a repeated header does not create a second track
 on its slot

---
 demuxer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index 3cf40fb..e265459 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -78,7 +78,8 @@ func (s *BaseDemuxer) AddTrack(track Track) bool {
 
 func (s *BaseDemuxer) OnNewAudioTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte, config AudioConfig) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || "ts" == s.Name {
+	// 每个bufferIndex最多一个track
+	if s.findTrackByBufferIndex(bufferIndex) == nil && (s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || "ts" == s.Name) {
 		track = s.createAudioTrack(bufferIndex, id, timebase, extraData, config)
 	}
 
@@ -132,7 +133,8 @@ func (s *BaseDemuxer) createAudioTrack(bufferIndex int, id utils.AVCodecID, time
 
 func (s *BaseDemuxer) OnNewVideoTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || "ts" == s.Name {
+	// 每个bufferIndex最多一个track
+	if s.findTrackByBufferIndex(bufferIndex) == nil && (s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || "ts" == s.Name) {
 		track = s.createVideoTrack(bufferIndex, id, timebase, extraData)
 	}
 
-- 
2.43.0


From 989e201096b81b95012d5760928493d54a1e124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 36/37] fix: raw audio rates are derived from the packets of
 each track

---
 demuxer.go | 88 ++++++++++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 52 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e265459..2b22a93 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -331,34 +331,30 @@ func (s *BaseDemuxer) findTrackByBufferIndex(index int) Track {
 	return nil
 }
 
-// calculatePCMFrequency 计算pcm采样率
-func (s *BaseDemuxer) calculatePCMFrequency() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
-			continue
-		}
-
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdPCMS16LE {
-			continue
-		}
-
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
+// firstPacketDuration 返回track第一个packet的时长(毫秒)和大小, 没有收到后续packet的track, 时长为0
+func (s *BaseDemuxer) firstPacketDuration(track Track) (int, int) {
+	index := track.GetStream().Index
+	if index >= len(s.Packets) || s.Packets[index].Size() < 2 {
+		return 0, 0
 	}
 
-	if pktDuration < 1 {
-		return false
-	}
+	pkt := s.Packets[index].Get(0)
+	return int(pkt.GetDuration(1000)), len(pkt.Data)
+}
 
+// calculatePCMFrequency 计算pcm采样率
+func (s *BaseDemuxer) calculatePCMFrequency() bool {
+	var found bool
 	for _, track := range s.Tracks.Tracks {
 		if track.GetStream().CodecID != utils.AVCodecIdPCMS16LE {
 			continue
 		}
 
+		pktDuration, pktDataSize := s.firstPacketDuration(track)
+		if pktDuration < 1 {
+			continue
+		}
+
 		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
@@ -372,55 +368,43 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 		}
 
 		track.GetStream().SampleRate = sampleRate
+		found = true
 	}
 
-	return true
+	return found
 }
 
 // calculateG726BitRate 计算g726比特率
 func (s *BaseDemuxer) calculateG726BitRate() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
+	var found bool
+	for _, track := range s.Tracks.Tracks {
+		if track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
 			continue
 		}
 
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdADPCMG726 {
+		pktDuration, pktDataSize := s.firstPacketDuration(track)
+		if pktDuration < 1 {
 			continue
 		}
 
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
-	}
-
-	if pktDuration < 1 {
-		return false
-	}
-
-	bitRate := pktDataSize / pktDuration * 1000 * 8
-	if bitRate <= 16000 {
-		bitRate = 16000
-	} else if bitRate <= 24000 {
-		bitRate = 24000
-	} else if bitRate <= 32000 {
-		bitRate = 32000
-	} else if bitRate <= 40000 {
-		bitRate = 40000
-	} else {
-		return false
-	}
-
-	for _, track := range s.Tracks.Tracks {
-		if track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
+		bitRate := pktDataSize / pktDuration * 1000 * 8
+		if bitRate <= 16000 {
+			bitRate = 16000
+		} else if bitRate <= 24000 {
+			bitRate = 24000
+		} else if bitRate <= 32000 {
+			bitRate = 32000
+		} else if bitRate <= 40000 {
+			bitRate = 40000
+		} else {
 			continue
 		}
+
 		track.GetStream().BitRate = bitRate
+		found = true
 	}
 
-	return true
+	return found
 }
 
 // 回调前的准备工作
-- 
2.43.0


From dbbceacebf8d63e58c810d0061f2701651212969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 37/37] fix: dump files hold the parameter sets once before a
 key frame

AVCCPacket2AnnexB already puts them in front; the handler wrote them a second time.
---
 handler.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/handler.go b/handler.go
index 7ffdb92..b73099f 100644
--- a/handler.go
+++ b/handler.go
@@ -72,14 +72,8 @@ func (o *OnUnpackStream2FileHandler) OnPacket(packet *AVPacket) {
 
 	data := packet.Data
 	if utils.AVMediaTypeVideo == packet.MediaType {
-		stream := o.tracks.Get(packet.Index).GetStream()
-		data = AVCCPacket2AnnexB(stream, packet)
-		if packet.Key && PacketTypeAVCC == packet.PacketType && stream.CodecParameters != nil {
-			extraData := stream.CodecParameters.AnnexBExtraData()
-			if _, err := o.fos[packet.Index].Write(extraData); err != nil {
-				panic(err)
-			}
-		}
+		// 关键帧开头的vps/sps/pps由AVCCPacket2AnnexB添加
+		data = AVCCPacket2AnnexB(o.tracks.Get(packet.Index).GetStream(), packet)
 	}
 
 	if _, err := o.fos[packet.Index].Write(data); err != nil {
-- 
2.43.0

