package checks

import (
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The harness is client code that uses the exported interface in every order a
// caller may: it is type-checked together with the repository, and analysed,
// but never run. One loop iteration stands for any later call.
const harnessPkg = "zzverifclient"

const harnessSrc = `package zzverifclient

import (
	"image"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

func tsPayload(src io.Reader, where ts.PacketTester) io.Reader {
	return ts.NewPayloadReader(src, where)
}

func tsPayloadSkip(src io.Reader, where, skipUntil ts.PacketTester) io.Reader {
	r := ts.NewPayloadReader(src, where)
	r.SkipUntil(skipUntil)
	return r
}

func tsPayloadTake(src io.Reader, where, takeWhile ts.PacketTester) io.Reader {
	r := ts.NewPayloadReader(src, where)
	r.TakeWhile(takeWhile)
	return r
}

func tsPayloadBoth(src io.Reader, where, skipUntil, takeWhile ts.PacketTester) io.Reader {
	r := ts.NewPayloadReader(src, where)
	r.SkipUntil(skipUntil)
	r.TakeWhile(takeWhile)
	return r
}

func tsUnit(src io.Reader, where ts.PacketTester) io.Reader {
	return ts.NewPayloadUnitReader(src, where)
}

func pesPayload(src io.Reader) io.Reader { return pes.NewPayloadReader(src) }

func psPayload(src io.Reader) io.Reader { return ps.NewPackReader(src) }

// any later call
func readStep(r io.Reader, buf func() []byte, sink func([]byte, int, error)) {
	p := buf()
	n, err := r.Read(p)
	sink(p, n, err)
}

func demux0(src io.Reader, skipUntil, takeWhile ts.PacketTester, started func(d *ts.Demuxer, done <-chan bool)) {
	d := ts.NewDemuxer(src)
	d.SkipUntil(skipUntil)
	d.TakeWhile(takeWhile)
	started(d, d.Go())
}

func demuxPlain(src io.Reader, t1 ts.PacketTester, started func(d *ts.Demuxer, c1 ts.PacketChannel, done <-chan bool)) {
	d := ts.NewDemuxer(src)
	c1 := d.Where(t1)
	started(d, c1, d.Go())
}

func demux(src io.Reader, skipUntil, takeWhile, t1, t2, t3 ts.PacketTester, started func(d *ts.Demuxer, c1, c2, c3 ts.PacketChannel, done <-chan bool)) {
	d := ts.NewDemuxer(src)
	c1 := d.Where(t1)
	d.SkipUntil(skipUntil)
	c2 := d.Where(t2)
	d.TakeWhile(takeWhile)
	c3 := d.Where(t3)
	started(d, c1, c2, c3, d.Go())
}

func demuxErr(d *ts.Demuxer) error { return d.Err() }

func decode(r bitreader.BitReader, started func(d ps.Decoder, packs <-chan *ps.Pack, done <-chan bool)) {
	d := ps.NewDecoder(r)
	started(d, d.Packs(), d.Go())
}

func decodeErr(d ps.Decoder) error { return d.Err() }

func packPackets(p *ps.Pack) pes.PacketChannel { return p.Packets() }

func tsOnly(in ts.PacketChannel, started func(out <-chan []byte)) { started(in.PayloadOnly()) }

func tsUnits(in ts.PacketChannel, started func(out <-chan []byte)) { started(in.PayloadUnit()) }

func videoNew(src io.Reader) *video.VideoSequence { return video.NewVideoSequence(src) }

func videoNext(v *video.VideoSequence) (*image.YCbCr, error) { return v.Next() }

func videoAlign(v *video.VideoSequence, code video.StartCode) error { return v.AlignTo(code) }

func videoSize(v *video.VideoSequence) (int, int) { return v.Size() }

func pesOnly(in pes.PacketChannel, started func(out <-chan []byte)) { started(in.PayloadOnly()) }
`

var needsHarness = map[string]bool{}

// Overlay is the client source for the checks that need it.
func Overlay(dir, id string) map[string][]byte {
	if !needsHarness[id] && id != "*" {
		return nil
	}
	abs, err := filepath.Abs(dir)
	if err != nil {
		abs = dir
	}
	return map[string][]byte{filepath.Join(abs, harnessPkg, "client.go"): []byte(harnessSrc)}
}

// Client returns a function of the client package.
func (c *Ctx) Client(name string) *ssa.Function { return c.Fn(harnessPkg, name) }

// isClient says whether fn belongs to the client code.
func isClient(fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), harnessPkg)
}
