package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/jfreymuth/oggvorbis"
	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/res"
	"github.com/livekit/media-sdk/res/testdata"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"

	"verif/harness/kit"
)

func init() {
	kit.Register("F08", kit.Check{
		Rule: "Built-in sounds and files made of them (other sample rates, cut, dropped, repeated and damaged pages with valid checksums), decoded by an independent loop. " +
			"Distinct: files.",
		Floor: 50,
		Run:   checkSounds,
	})
	kit.Register("F09", kit.Check{
		Rule: "Streams of frames through codecs and resamplers with dumps enabled by the environment; what is written to files is compared with what passed the boundaries. " +
			"Distinct: (codec, rates, frames).",
		Floor: 50,
		Run:   checkDumps,
	})
}

func oggCRC(p []byte) (crc uint32) {
	for _, b := range p {
		crc ^= uint32(b) << 24
		for k := 0; k < 8; k++ {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04c11db7
			} else {
				crc <<= 1
			}
		}
	}
	return
}

// oggPages splits a file to pages.
func oggPages(data []byte) (pages [][]byte) {
	for len(data) >= 27 {
		n := int(data[26])
		sz := 27 + n
		for _, v := range data[27 : 27+n] {
			sz += int(v)
		}
		pages = append(pages, bytes.Clone(data[:sz]))
		data = data[sz:]
	}
	return
}

func oggJoin(pages [][]byte) (out []byte) {
	for _, p := range pages {
		binary.LittleEndian.PutUint32(p[22:], 0)
		binary.LittleEndian.PutUint32(p[22:], oggCRC(p))
		out = append(out, p...)
	}
	return
}

// decodeOgg is a reference: all values of a file.
func decodeOgg(data []byte, buf int) (out []float32, rate int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	r, err := oggvorbis.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, 0, err
	}
	if r.Channels() != 1 {
		return nil, 0, fmt.Errorf("%d channels", r.Channels())
	}
	p := make([]float32, buf)
	for {
		n, err := r.Read(p)
		out = append(out, p[:n]...)
		if err == io.EOF {
			return out, r.SampleRate(), nil
		} else if err != nil {
			return nil, 0, err
		}
	}
}

func checkSounds(c *kit.C) {
	files := map[string][]byte{"enter": res.EnterPinOgg, "join": res.RoomJoinOgg, "wrong": res.WrongPinOgg, "test": testdata.TestAudioOgg}
	var names []string
	for k := range files {
		names = append(names, k)
	}
	sort.Strings(names)
	loud, over, short := 0, 0, 0
	for _, name := range names { // the advertised rate is that of all built-in sounds
		if _, rate, err := decodeOgg(files[name], 1000); err != nil || rate != res.SampleRate && name != "test" {
			c.Fail("rate", "sound %s has a rate of %d, not %d (%v)", name, rate, res.SampleRate, err)
		}
	}
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("sound", i)
		name := names[i%len(names)]
		orig := files[name]
		desc := name
		data := bytes.Clone(orig)
		rate := 48000
		if i >= 2*len(names) {
			pages := oggPages(orig)
			if got := oggJoin(pages); !bytes.Equal(got, orig) {
				c.Fail("harness", "pages of %s aren't restored", name)
				return
			}
			if rnd.Intn(2) == 0 {
				rate = []int{8000, 16000, 22050, 44100, 11025, 50, 96000, 12345}[rnd.Intn(8)]
				binary.LittleEndian.PutUint32(pages[0][27+int(pages[0][26])+12:], uint32(rate))
				desc += fmt.Sprintf(" rate=%d", rate)
			}
			for k := rnd.Intn(4); k > 0 && len(pages) > 3; k-- {
				j := 2 + rnd.Intn(len(pages)-2)
				switch rnd.Intn(4) {
				case 0:
					pages = append(pages[:j:j], pages[j+1:]...)
					desc += fmt.Sprintf(" drop=%d", j)
				case 1:
					pages = append(pages[:j+1:j+1], append([][]byte{bytes.Clone(pages[j])}, pages[j+1:]...)...)
					desc += fmt.Sprintf(" repeat=%d", j)
				case 2:
					pages = pages[:j]
					desc += fmt.Sprintf(" cut=%d", j)
				case 3:
					p := pages[j]
					h := 27 + int(p[26])
					for q := rnd.Intn(30); q >= 0 && len(p) > h; q-- {
						p[h+rnd.Intn(len(p)-h)] ^= 1 << rnd.Intn(8)
					}
					desc += fmt.Sprintf(" damage=%d", j)
				}
				if len(pages) <= 3 {
					break
				}
			}
			if rnd.Intn(2) == 0 { // the end is given by the position of the last page
				p := pages[len(pages)-1]
				if pos := binary.LittleEndian.Uint64(p[6:]); pos != math.MaxUint64 {
					valid := func(cut uint64) (int, bool) { // the reference fails if it's before the last packet
						binary.LittleEndian.PutUint64(p[6:], pos-min(pos, cut))
						all, _, err := decodeOgg(oggJoin(pages), 5000)
						return len(all), err == nil
					}
					p[5] |= 4
					cut := uint64(rnd.Intn(3000))
					total, ok := valid(0)
					per := max(rate/50, 1)
					if rest := total % per; ok && rnd.Intn(2) == 0 { // the last frame is very short
						cut = uint64((rest - 1 - rnd.Intn(max(per/50, 1)) + per) % per)
					}
					for k := 0; k < 8; k++ {
						if _, ok := valid(cut); ok {
							break
						}
						cut = uint64(rnd.Intn(int(cut)/2 + 1))
					}
					desc += fmt.Sprintf(" end=-%d", cut)
				}
			}
			data = oggJoin(pages)
		}
		want, wrate, err := decodeOgg(data, 1+rnd.Intn(5000))
		if err != nil {
			c.Count("files without a reference", 1)
			continue
		}
		if wrate != rate {
			c.Fail("harness", "rate %d, expected %d", wrate, rate)
			return
		}
		c.Eval("sound %s", desc)
		c.Distinct(string(data))
		before := bytes.Clone(data)
		var frames []msdk.PCM16Sample
		if r := kit.Panics(func() { frames = res.ReadOggAudioFile(data, rate, 1) }); r != nil {
			c.Fail("panic", "%s can't be read: %v", desc, r)
			return
		}
		if !bytes.Equal(data, before) {
			c.Fail("modified", "%s: the file is modified", desc)
		}
		per := rate / 50
		var all msdk.PCM16Sample
		for k, f := range frames {
			if len(f) != per && (k != len(frames)-1 || len(f) == 0 || len(f) > per) {
				c.Fail("frame-size", "%s: frame %d of %d has %d samples, expected %d", desc, k, len(frames), len(f), per)
				return
			}
			all = append(all, f...)
		}
		if tail := len(all) % per; tail > 0 && tail <= max(per/50, 1) {
			short++
		}
		if len(all) != len(want) {
			c.Fail("length", "%s: %d samples, expected %d", desc, len(all), len(want))
			return
		}
		for k, v := range want {
			if v > 1 || v < -1 {
				over++
			}
			if v > 0.99 || v < -0.99 {
				loud++
			}
			if d := float64(all[k]) - float64(min(max(v, -1), 1))*0x7fff; d > 1 || d < -1 {
				c.Fail("samples", "%s: sample %d is %d, expected %v", desc, k, all[k], v*0x7fff)
				return
			}
		}
		c.Count("samples", len(all))
		c.Sample(fmt.Sprint(strings.Count(desc, "=")), "%s: %d frames", desc, len(frames))
		// Another rate or number of channels isn't accepted silently.
		if kit.Panics(func() { res.ReadOggAudioFile(data, rate+1, 1) }) == nil || kit.Panics(func() { res.ReadOggAudioFile(data, rate, 2) }) == nil {
			c.Fail("mismatch", "%s: read with a wrong format", desc)
		}
	}
	c.Count("files with a last frame shorter than 2%", short)
	c.Count("samples near the limits", loud)
	c.Count("samples above the limits", over)
}

// dumps returns new files and removes them.
func dumps(c *kit.C) map[string][]byte {
	out := make(map[string][]byte)
	list, err := os.ReadDir(".")
	if err != nil {
		panic(err)
	}
	for _, x := range list {
		data, err := os.ReadFile(x.Name())
		if err != nil {
			panic(err)
		}
		out[x.Name()] = data
		if err := os.Remove(filepath.Join(".", x.Name())); err != nil {
			panic(err)
		}
	}
	return out
}

// onlyDump finds a dump by the prefix and suffix of the name.
func onlyDump(c *kit.C, files map[string][]byte, pre, suf string) ([]byte, bool) {
	var got []string
	for name := range files {
		if strings.HasPrefix(name, pre) && strings.HasSuffix(name, suf) {
			got = append(got, name)
		}
	}
	if len(got) != 1 {
		var all []string
		for name := range files {
			all = append(all, name)
		}
		sort.Strings(all)
		c.Fail("files", "expected one dump like %s*%s, got %q", pre, suf, all)
		return nil, false
	}
	return files[got[0]], true
}

// g722Bytes passes bytes of samples as encoded audio.
type g722Bytes struct {
	w   g722.Writer
	all *[]byte
}

func (w g722Bytes) String() string  { return "g722" }
func (w g722Bytes) SampleRate() int { return w.w.SampleRate() }
func (w g722Bytes) Close() error    { return w.w.Close() }
func (w g722Bytes) WriteSample(in msdk.PCM16Sample) error {
	*w.all = append(*w.all, pcmBytes(in)...)
	return w.w.WriteSample(pcmBytes(in))
}

type rtpSink struct{ payloads [][]byte }

func (s *rtpSink) String() string { return "rtp" }
func (s *rtpSink) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	s.payloads = append(s.payloads, bytes.Clone(payload))
	return len(payload), nil
}

// checkNoDumps runs streams in a process where dumps are not enabled.
func checkNoDumps(c *kit.C) {
	c.Eval("no dumps")
	if os.Getenv("VERIF_NO_DUMPS") != "" {
		for k := 0; k < 15; k++ {
			runDumpStreams(c, c.Rand("nodumps", k), false)
		}
		for _, name := range []string{g711.ULawSDPName, g711.ALawSDPName, g722.SDPName} {
			h := sdp.CodecByName(name).(rtp.AudioCodec).DecodeRTP(newPCMSink(8000), 0)
			if err := h.HandleRTP(&prtp.Header{}, make([]byte, 160)); err != nil {
				c.Fail("write", "%s: %v", name, err)
			}
		}
		if files := dumps(c); len(files) != 0 {
			c.Fail("enabled", "%d files are written without being asked", len(files))
		}
		return
	}
	dir := c.T.TempDir()
	exe, err := os.Executable()
	if err != nil {
		c.Fail("harness", "%v", err)
		return
	}
	for _, val := range []string{"-", "", "false", "0"} {
		cmd := exec.Command(exe, "-test.run", "^TestProperty$")
		cmd.Dir = filepath.Join(dir, "cwd"+val)
		out := filepath.Join(dir, "out"+val)
		if err := errors.Join(os.Mkdir(cmd.Dir, 0o700), os.Mkdir(out, 0o700)); err != nil {
			c.Fail("harness", "%v", err)
			return
		}
		for _, v := range os.Environ() {
			if !strings.HasPrefix(v, "LK_DUMP") && !strings.HasPrefix(v, "VERIF_OUT=") {
				cmd.Env = append(cmd.Env, v)
			}
		}
		if val != "-" {
			cmd.Env = append(cmd.Env, "LK_DUMP_MEDIA="+val, "LK_DUMP_RESAMPLE="+val, "LK_DUMP_G722="+val)
		}
		cmd.Env = append(cmd.Env, "VERIF_NO_DUMPS=1", "VERIF_OUT="+out)
		_ = cmd.Run()
		data, err := os.ReadFile(filepath.Join(out, "result.json"))
		if err != nil || len(data) == 0 {
			c.Fail("harness", "child process has no result: %v", err)
			return
		}
		if data, _ := os.ReadFile(filepath.Join(out, "violations.jsonl")); len(data) != 0 {
			c.Fail("enabled", "with dumps set to %q: %s", val, data)
		}
		c.Count("runs without dumps", 1)
	}
}

// runDumpStreams writes interleaved streams, and compares dumps of all of them.
func runDumpStreams(c *kit.C, rnd *rand.Rand, enabled bool) {
	type stream struct {
		kind string
		w    msdk.PCM16Writer
		in   msdk.PCM16Sample
		want map[string]func() []byte // by the suffix
		pre  string
	}
	var list []*stream
	for k := 0; k < 2+rnd.Intn(5); k++ {
		s := &stream{kind: []string{"resample", "g722enc", "g722dec", "rtp"}[rnd.Intn(4)], want: make(map[string]func() []byte)}
		in := func() []byte { return pcmBytes(s.in) }
		switch s.kind {
		case "resample":
			out := newPCMSink(16000)
			s.w = msdk.ResampleWriter(out, 8000)
			s.pre = "sip_resample_"
			s.want["_in_ar8000.s16le"] = in
			s.want["_out_ar16000.s16le"] = func() []byte { return pcmBytes(out.all()) }
		case "g722enc":
			out := newSink[g722.Sample](16000)
			s.w = g722.Encode(out)
			s.pre = "sip_g722_enc_"
			s.want["_in_ar16000.s16le"] = in
			s.want["_out_ar16000.g722"] = func() []byte { return out.all() }
		case "g722dec":
			out := newPCMSink(16000)
			var enc []byte
			s.w = g722Bytes{g722.Decode(out), &enc}
			s.pre = "sip_g722_dec_"
			s.want["_in_ar16000.g722"] = func() []byte { return enc }
			s.want["_out_ar16000.s16le"] = func() []byte { return pcmBytes(out.all()) }
		case "rtp":
			sink := &rtpSink{}
			codec := sdp.CodecByName(g711.ULawSDPName).(rtp.AudioCodec)
			s.w = codec.EncodeRTP(rtp.NewSeqWriter(sink).NewStream(0, 8000))
			s.pre = "sip_rtp_out_"
			s.want["_ar8000."+codec.Info().FileExt] = func() []byte { return bytes.Join(sink.payloads, nil) }
		}
		list = append(list, s)
	}
	for k := 0; k < 20; k++ {
		for _, s := range list {
			f := randPCM(rnd, 2+2*rnd.Intn(200))
			s.in = append(s.in, f...)
			if err := s.w.WriteSample(f); err != nil {
				c.Fail("write", "%s: %v", s.kind, err)
				return
			}
		}
	}
	for _, s := range list {
		if err := s.w.Close(); err != nil {
			c.Fail("close", "%s: %v", s.kind, err)
		}
	}
	if !enabled {
		return
	}
	files := dumps(c)
	total := 0
	for _, s := range list {
		total += len(s.want)
		for suf, want := range s.want {
			found := false
			data := want()
			for name, got := range files {
				if strings.HasPrefix(name, s.pre) && strings.HasSuffix(name, suf) && bytes.Equal(got, data) {
					found = true
				}
			}
			if !found {
				c.Fail("parallel", "%d streams, no dump %s*%s has the %d bytes of a stream", len(list), s.pre, suf, len(data))
			}
		}
	}
	if len(files) != total {
		c.Fail("parallel", "%d dumps of %d streams, expected %d", len(files), len(list), total)
	}
	c.Count("parallel streams", len(list))
}

func checkDumps(c *kit.C) {
	dumps(c)
	checkNoDumps(c)
	if os.Getenv("VERIF_NO_DUMPS") != "" {
		return
	}
	for i := 0; i < c.N(100, 2000) && !c.Failed(); i++ {
		c.Eval("parallel %d", i)
		runDumpStreams(c, c.Rand("parallel", i), true)
	}
	for i := 0; i < c.N(400, 8000); i++ {
		rnd := c.Rand("dump", i)
		n := 1 + rnd.Intn(60)
		kind := []string{"resample", "g722", "rtp-out", "rtp-in", "writer"}[i%5]
		var frames []msdk.PCM16Sample
		gen := func(rate int) (all msdk.PCM16Sample) {
			for k := 0; k < n; k++ {
				sz := rate / 50
				if kind == "resample" || kind == "writer" {
					sz = 1 + rnd.Intn(max(rate/10, 4))
				}
				f := randPCM(rnd, sz)
				frames = append(frames, f)
				all = append(all, f...)
			}
			return
		}
		c.Eval("dump %d %s frames=%d", i, kind, n)
		c.Distinct(kind, n, i)
		write := func(w msdk.PCM16Writer) bool {
			for k, f := range frames {
				if err := w.WriteSample(append(msdk.PCM16Sample{}, f...)); err != nil {
					c.Fail("write", "%s: frame %d: %v", kind, k, err)
					return false
				}
			}
			if err := w.Close(); err != nil {
				c.Fail("close", "%s: %v", kind, err)
				return false
			}
			return true
		}
		expect := func(files map[string][]byte, pre, suf string, want []byte) {
			got, ok := onlyDump(c, files, pre, suf)
			if ok && !bytes.Equal(got, want) {
				c.Fail("content", "%s: dump %s*%s has %d bytes, expected %d, different at %d", kind, pre, suf, len(got), len(want), firstDiff(got, want))
			}
			c.Count("dumped bytes", len(got))
		}
		switch kind {
		case "writer":
			rate := []int{8000, 11025, 16000, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192000, 1, 7}[rnd.Intn(13)]
			file := fmt.Sprintf("dump_test_ar%d", rate)
			all := gen(rate)
			out := newPCMSink(rate)
			if rnd.Intn(2) == 0 { // a dump of an earlier run
				old := make([]byte, rnd.Intn(4*len(all)))
				rnd.Read(old)
				if err := os.WriteFile(file+".s16le", old, 0o600); err != nil {
					panic(err)
				}
				c.Count("stale dumps", 1)
			}
			if !write(msdk.DumpWriterPCM16("dump_test", out)) {
				return
			}
			expect(dumps(c), file, ".s16le", pcmBytes(all))
			if !equal(out.all(), all) || out.closed != 1 {
				c.Fail("stream", "the stream is different with a dump, closed %d times", out.closed)
			}
		case "resample":
			rates := []int{8000, 16000, 24000, 32000, 44100, 48000, 96000}
			src, dst := rates[rnd.Intn(7)], rates[rnd.Intn(7)]
			all := gen(src)
			out := newPCMSink(dst)
			w := msdk.ResampleWriter(out, src)
			if w.SampleRate() != src {
				c.Fail("rate", "resampler from %d to %d has a rate %d", src, dst, w.SampleRate())
			}
			if !write(w) {
				return
			}
			if out.closed != 1 {
				c.Fail("closed", "the output is closed %d times", out.closed)
			}
			files := dumps(c)
			if src == dst {
				c.Check(len(files) == 0, "files", "dumps without resampling")
				c.Check(equal(out.all(), all), "stream", "different without resampling")
				break
			}
			expect(files, "sip_resample_", fmt.Sprintf("_in_ar%d.s16le", src), pcmBytes(all))
			expect(files, "sip_resample_", fmt.Sprintf("_out_ar%d.s16le", dst), pcmBytes(out.all()))
			want := float64(len(all)) * float64(dst) / float64(src)
			if d := float64(len(out.all())) - want; d > 2 || d < -2 {
				c.Fail("duration", "%d samples from %d to %d: %d samples", len(all), src, dst, len(out.all()))
			}
		case "g722":
			rate := []int{8000, 16000}[rnd.Intn(2)]
			all := gen(rate)
			enc := newSink[g722.Sample](rate)
			if !write(g722.Encode(enc)) {
				return
			}
			files := dumps(c)
			expect(files, "sip_g722_enc_", fmt.Sprintf("_in_ar%d.s16le", rate), pcmBytes(all))
			expect(files, "sip_g722_enc_", fmt.Sprintf("_out_ar%d.g722", rate), enc.all())
			out := newPCMSink(rate)
			dec := g722.Decode(out)
			for _, f := range enc.snapshot() {
				if err := dec.WriteSample(f.copy); err != nil {
					c.Fail("decode", "%v", err)
					return
				}
			}
			if err := dec.Close(); err != nil {
				c.Fail("decode", "%v", err)
			}
			files = dumps(c)
			expect(files, "sip_g722_dec_", fmt.Sprintf("_in_ar%d.g722", rate), enc.all())
			expect(files, "sip_g722_dec_", fmt.Sprintf("_out_ar%d.s16le", rate), pcmBytes(out.all()))
			if out.closed != 1 || enc.closed != 1 || len(out.all()) != len(all) {
				c.Fail("stream", "closed %d and %d times, %d samples of %d", enc.closed, out.closed, len(out.all()), len(all))
			}
		case "rtp-out":
			all := gen(8000)
			name := []string{g711.ULawSDPName, g711.ALawSDPName, g722.SDPName}[rnd.Intn(3)]
			var codec rtp.AudioCodec
			for _, x := range msdk.Codecs() {
				if x.Info().SDPName == name {
					codec = x.(rtp.AudioCodec)
				}
			}
			if rnd.Intn(4) == 0 {
				codec = customCodec(rnd)
			}
			if codec.Info().SampleRate != 8000 {
				frames = nil
				all = gen(codec.Info().SampleRate)
			}
			sink := &rtpSink{}
			if !write(codec.EncodeRTP(rtp.NewSeqWriter(sink).NewStream(0, codec.Info().RTPClockRate))) {
				return
			}
			var sent []byte
			for _, p := range sink.payloads {
				sent = append(sent, p...)
			}
			if len(sink.payloads) != len(frames) || len(sent) == 0 {
				c.Fail("packets", "%d packets of %d frames", len(sink.payloads), len(frames))
			}
			_ = all
			expect(dumps(c), "sip_rtp_out_", "."+codecExt(codec), sent)
		case "rtp-in":
			// The handler can't be closed, so the last part of the dump is not written.
			name := []string{g711.ULawSDPName, g711.ALawSDPName}[rnd.Intn(2)]
			var codec rtp.AudioCodec
			for _, x := range msdk.Codecs() {
				if x.Info().SDPName == name {
					codec = x.(rtp.AudioCodec)
				}
			}
			if rnd.Intn(4) == 0 {
				codec = customCodec(rnd)
			}
			out := newPCMSink(8000)
			h := codec.DecodeRTP(out, codec.Info().RTPDefType)
			var sent []byte
			for k := 0; k < n; k++ {
				p := make([]byte, 1+rnd.Intn(400))
				rnd.Read(p)
				sent = append(sent, p...)
				if err := h.HandleRTP(&prtp.Header{}, p); err != nil {
					c.Fail("handle", "%v", err)
					return
				}
			}
			if len(out.all()) != len(sent) {
				c.Fail("stream", "%d samples of %d bytes", len(out.all()), len(sent))
			}
			got, ok := onlyDump(c, dumps(c), "sip_rtp_in_", "."+codecExt(codec))
			if ok && (!bytes.HasPrefix(sent, got) || len(sent)-len(got) > 4096) {
				c.Fail("content", "dump has %d of %d bytes, different at %d", len(got), len(sent), firstDiff(got, sent))
			}
			c.Count("dumped bytes", len(got))
		}
		c.Count(kind, 1)
		if c.Failed() {
			return
		}
	}
}

// customCodec is a codec that isn't registered, with a file extension or without.
func customCodec(rnd *rand.Rand) rtp.AudioCodec {
	ext := []string{"", "", "x", "test"}[rnd.Intn(4)]
	return rtp.NewAudioCodec(msdk.CodecInfo{SDPName: "X-TEST/8000", SampleRate: 8000, FileExt: ext}, g711.DecodeULaw, g711.EncodeULaw)
}

func codecExt(codec msdk.Codec) string {
	if ext := codec.Info().FileExt; ext != "" {
		return ext
	}
	return "raw"
}
