import os,subprocess,json,shutil,sys
# Writes /verif/seeded/ID for the changes below; try.sh ID verifies them.
H=os.path.dirname(os.path.abspath(__file__))
R='/tmp/seedgen/repo' # scratch clone
if not os.path.isdir(R): os.makedirs('/tmp/seedgen',exist_ok=True); subprocess.run(['git','clone','-q','/repo',R],check=True)
OUT='/verif/seeded'
B=[]
def bug(id,prop,edits,needs,breaks,demo,cli=False,race=False): B.append((id,prop,edits,needs,breaks,demo,cli,race))

CLI='''
import (
	"image"
	"image/png"
	"os"
	"os/exec"
)

func run(in []byte, out string) error {
	name := os.Getenv("SCRATCH") + "/in"
	check(os.WriteFile(name, in, 0644) == nil, "scratch")
	return exec.Command(os.Getenv("CLI"), name, out).Run()
}

func picture(in []byte) image.Image {
	out := os.Getenv("SCRATCH") + "/out.png"
	check(run(in, out) == nil, "conversion failed")
	f, err := os.Open(out)
	check(err == nil, "no output")
	img, err := png.Decode(f)
	check(err == nil, "no png: %v", err)
	return img
}
'''



ARCH="""
import (
	"archive/tar"
	"bytes"
	"fmt"
	"os/exec"

	"gitlab.cs.fau.de/since/radolan"
)

type entry struct {
	name string
	data []byte
}

func archive(entries ...entry) []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range entries {
		check(w.WriteHeader(&tar.Header{Name: e.name, Mode: 0644, Size: int64(len(e.data)), Typeflag: tar.TypeReg}) == nil, "tar")
		w.Write(e.data)
	}
	w.Close()
	return compress(buf.Bytes())
}

func compress(b []byte) []byte {
	cmd := exec.Command("python3", "-c", "import sys,bz2; sys.stdout.buffer.write(bz2.compress(sys.stdin.buffer.read(),1))")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	check(err == nil, "python3: %v", err)
	return out
}

var _ = fmt.Sprint
var _ = radolan.NaN
"""



bug('C10-budget','C10',[('radolan.go','	var cs []*Composite\n	for {\n		_, err := tarReader.Next()\n		if err == io.EOF {\n			break\n		}','	var cs []*Composite\n	total := int64(0)\n	for {\n		hdr, err := tarReader.Next()\n		if err == io.EOF {\n			break\n		}\n		if err == nil {\n			total += hdr.Size\n			if total > 6<<20 { // bounds memory\n				break\n			}\n		}')],
 'an archive with more than 6 MB of entries',
 'The composites beyond that are dropped without an error.',
ARCH+"""
func grid(n int, lead string) []byte {
	return mk("WN", "VS 5VV"+lead+fmt.Sprintf("GP%4dx%4d", n, n), make([]byte, 2*n*n))
}

func main() {
	for _, n := range []int{10, 400, 1100, 1500} {
		cs, err := radolan.NewComposites(bytes.NewReader(archive(entry{"a", grid(n, " 000")}, entry{"b", grid(n, " 005")}, entry{"c", grid(n, " 010")})))
		check(err == nil, "size %d: %v", n, err)
		check(len(cs) == 3, "size %d: %d composites", n, len(cs))
	}
}
""")
bug('C15-sums','C15',[('projection.go','	c.Ry = (resy) / float64(c.Dy)\n','	c.Ry = (resy) / float64(c.Dy)\n	if c.Interval.Hours() > 24 && c.Dx > 900 { // sums are published for the national grid\n		c.Rx, c.Ry = 1, 1\n	}\n')],
 'a parsed composite on a grid of more than 900 columns whose interval is longer than a day',
 'It reports a resolution of 1 km whatever the size of its grid.',
"""
func main() {
	for _, hours := range []int{1, 24, 25, 48, 700} {
		for _, n := range []int{900, 1800} {
			c := mustParse(mk("RX", fmt.Sprintf("INT%5dGP%4dx%4d", hours*60, n, n), make([]byte, n*n)))
			want := 900 / float64(n)
			check(near(c.Rx, want, 0.01) && near(c.Ry, want, 0.01), "%d hours, %dx%d: resolution %v, %v", hours, n, n, c.Rx, c.Ry)
		}
	}
}
""")
bug('C05-row-limit','C05',[('runlength.go','	length := len(line)\n','	length := len(line)\n	if err == nil && length > bufio.MaxScanTokenSize {\n		return nil, newError("readLineRunlength", "line too long")\n	}\n')],
 'a row of more than 64 KB, made of many empty runs',
 'Such a row is rejected although its runs fit the width.',
"""
func main() {
	for _, n := range []int{0, 5, 5000, 65000, 66000, 500000} {
		row := []byte{33, 17, 0x21}
		for i := 0; i < n; i++ {
			row = append(row, byte(i%9))
		}
		row = append(row, 0x12, 10)
		c := mustParse(mk("PG", "LV 2  1.0  2.0BG001004", row))
		check(nan(c.At(0, 0)) && c.At(1, 0) == 1 && c.At(2, 0) == 1 && c.At(3, 0) == 2, "with %d empty runs: %v", n, c.Data)
	}
}
""")
bug('C15-picture-size','C15',[('projection.go','	if c.Rx == 0 || c.Ry == 0 { // keep','	if (c.Rx == 0 || c.Ry == 0) && (c.Dx != 200 || c.Dy != 200) { // keep')],
 'a composite with 200x200 pixels whose dimensions are in the header, or a blank one of that size',
 'It reports a resolution of 0 instead of NaN, as if it were a local picture of the catalogue.',
"""
func main() {
	for _, d := range [][2]int{{200, 200}, {200, 224}, {30, 20}, {224, 200}} {
		c := radolan.NewDummy("PX", 3, d[0], d[1])
		check(math.IsNaN(c.Rx) && math.IsNaN(c.Ry), "%v: resolution %v, %v", d, c.Rx, c.Ry)
		c = mustParse(mk("RX", fmt.Sprintf("GP%4dx%4d", d[1], d[0]), make([]byte, d[0]*d[1])))
		check(math.IsNaN(c.Rx) && math.IsNaN(c.Ry), "%v: resolution %v, %v", d, c.Rx, c.Ry)
	}
	c := mustParse(mk("PX", "VS 1", make([]byte, 200*224)))
	check(c.Rx == 1 && c.Ry == 1, "local picture has resolution %v, %v", c.Rx, c.Ry)
}
""")
bug('C20-fine-grid','C20',[('radolan2png/radolan2png.go','			img.Set(int(x), int(y), borderColor)','			img.Set(int(x), int(y), borderColor)\n			if comp.Dx > 2800 { // stays visible\n				img.Set(int(x)+1, int(y), borderColor)\n			}')],
 'a grid with pixels of a quarter of a kilometre',
 'The border is drawn two pixels wide there, over pixels which it does not cover.',
CLI+"""
func main() {
	for _, n := range []int{900, 3600} {
		img := picture(append([]byte(fmt.Sprintf("RX171450100000716BY%08dVS 3GP%4dx%4d\\x03", 17+10+4+11+1+n*n, n, n)), make([]byte, n*n)...))
		got := 0
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				r, g, b, _ := img.At(x, y).RGBA()
				if r == 0xFFFF && g == 0xFFFF && b == 0 {
					got++
				}
			}
		}
		check(got == want[n], "the border has %d pixels at %dx%d", got, n, n)
	}
}

// counted once on the documented behaviour
var want = map[int]int{900: 7257, 3600: 11662}
""",True)
bug('C06-wide-dimensions','C06',[('header.go','	if dim, ok := section["GP"]; ok {','	if dim, ok := section["GP"]; ok && len(dim) <= 10 { // I4 x I4')],
 'dimensions padded to more than five characters each',
 'Such dimensions are not found: the composite is rejected, or takes the catalogued ones.',
"""
func main() {
	for _, f := range []string{"GP%dx%d", "GP%4dx%4d", "GP%5dx%5d", "GP%9dx%9d", "GP%4dx%4d   ", "GP %04dx%04d  "} {
		c := mustParse(mk("RX", fmt.Sprintf(f, 3, 4)+"VS 3", make([]byte, 12)))
		check(c.Dx == 4 && c.Dy == 3 && c.Format == 3, "%q: %dx%d", f, c.Dx, c.Dy)
	}
}
""")

bug('C21-permission','C21',[('radolan2png/radolan2png.go','	infile, err := os.Open(in)\n','	infile, err := os.Open(in)\n	if os.IsPermission(err) { // somebody else converts it\n		log.Print(err)\n		return\n	}\n')],
 'an existing input file that the user may not read',
 'An unreadable input ends with status 0 although nothing was converted.',
"""
import (
	"image"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
)

func main() {
	dir := os.Getenv("SCRATCH")
	// as a user who may not read everything
	run := func(args ...string) error {
		cmd := exec.Command(os.Getenv("CLI"), args...)
		cmd.Dir = dir
		if os.Geteuid() == 0 {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		}
		return cmd.Run()
	}
	os.Chmod(filepath.Dir(dir), 0711) // the directory of this demonstration
	os.Chmod(os.Getenv("CLI"), 0755)
	os.Chmod(dir, 0777)
	good := mk("RW", "GP   1x   1", []byte{1, 0})
	check(os.WriteFile(dir+"/in", good, 0644) == nil, "scratch")
	check(os.WriteFile(dir+"/closed", good, 0) == nil, "scratch")
	check(run("in", "out.png") == nil, "a readable input is not converted")
	f, err := os.Open(dir + "/out.png")
	check(err == nil, "no output")
	_, err = png.Decode(f)
	check(err == nil, "no png: %v", err)
	check(run("closed", "none.png") != nil, "an unreadable input ends with status 0")
	_, err = os.Stat(dir + "/none.png")
	check(err != nil, "an output appears for an unreadable input")
}

var _ image.Image
""",True)
bug('C19-stale','C19',[('radolan2png/vis/vis.go','	rec := image.Rect(0, 0, c.Dx, c.Dy)\n','	corner := fn(float64(c.AtZ(0, 0, layer)))\n	if v, ok := last.Load().(drawn); ok && v.c == c && v.layer == layer && v.corner == corner {\n		return v.img // again\n	}\n	rec := image.Rect(0, 0, c.Dx, c.Dy)\n'),
 ('radolan2png/vis/vis.go','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n	last.Store(drawn{c, layer, corner, img})\n'),
 ('radolan2png/vis/vis.go','// Id is the id','// drawn is the last picture.\ntype drawn struct {\n	c      *radolan.Composite\n	layer  int\n	corner color.RGBA\n	img    *image.RGBA\n}\n\nvar last atomic.Value\n\n// Id is the id'),
 ('radolan2png/vis/vis.go','	"math"\n','	"math"\n	"sync/atomic"\n')],
 'the same layer rendered twice in a row with colour functions that agree on the upper left pixel',
 'The second picture shows the colours of the first colour function.',
"""
import (
	"image/color"

	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

func main() {
	c := mustParse(mk("RW", "GP   2x   2", []byte{1, 0, 2, 0, 3, 0, 4, 0}))
	a := func(v float64) color.RGBA { return color.RGBA{byte(v), 0, 0, 255} }
	b := func(v float64) color.RGBA {
		if v == 1 {
			return color.RGBA{0, 9, 0, 255}
		}
		return a(v)
	}
	check(vis.Image(a, c, 0).RGBAAt(0, 1) == a(1), "first picture")
	check(vis.Image(b, c, 0).RGBAAt(0, 1) == b(1), "second picture has the colours of the first")
	c.Data[1][1] = 7
	check(vis.Image(b, c, 0).RGBAAt(1, 1) == b(7), "third picture shows an old value")
}
""")
bug('C16-small-factor','C16',[('conversion.go','	c4 := 10.0 * math.Log10(A)','	c4 := 10.0 * math.Max(0, math.Log10(A)) // no negative offset')],
 'a relationship with a factor below 1',
 'The reflectivity of a rate is too large there and does not undo the conversion.',
"""
func main() {
	for _, a := range []float64{0.01, 0.5, 1, 200, 256} {
		zr := radolan.NewZR(a, 1.5)
		for _, r := range []float64{0.1, 1, 20} {
			want := 10 * math.Log10(a*math.Pow(r, 1.5))
			got := float64(radolan.Reflectivity(zr, r))
			check(near(got, want, 1e-3), "a=%v: reflectivity of %v is %v, want %v", a, r, got, want)
			check(near(radolan.PrecipitationRate(zr, float32(got)), r, 1e-3*r), "a=%v: no round trip of %v", a, r)
		}
	}
}
""")
bug('C07-long-header','C07',[('header.go','	c.dataLength -= len(header)','	if len(header) > 4096 { // some writers pad the record\n		c.dataLength &^= 1\n	}\n	c.dataLength -= len(header)')],
 'a header of more than 4096 bytes whose announced length is one too large',
 'Such an inconsistent composite is accepted.',
"""
import "strings"

func main() {
	for _, n := range []int{3, 5000, 5001} {
		good := mk("RX", "MS"+strings.Repeat("x", n)+"GP   2x   2", make([]byte, 8))
		mustParse(good)
		h := bytes.IndexByte(good, 3) + 1
		bad := append(append([]byte{}, good...), 0)
		copy(bad[19:], fmt.Sprintf("%07d", h+9))
		if (h+9)%2 == 0 { // the other parity
			bad = append(append([]byte{}, bad[:h-1]...), append([]byte{'0'}, bad[h-1:]...)...)
			copy(bad[19:], fmt.Sprintf("%07d", h+10))
		}
		_, err := parse(bad)
		check(err != nil, "with a header of %d bytes and a length one too large: accepted", h)
	}
}
""")

bug('C04-uniform-row','C04',[('singlebyte.go','	for i, v := range line {\n','	if n := bytes.Count(line, line[:1]); n == len(line) && n > 8 {\n		fill(dst[:n-n%8], c.rvp6SingleByte(line[0]))\n		return nil\n	}\n	for i, v := range line {\n'),
 ('singlebyte.go','// rvp6SingleByte converts','// fill sets all of dst to the value.\nfunc fill(dst []float32, value float32) {\n	for i := range dst {\n		dst[i] = value\n	}\n}\n\n// rvp6SingleByte converts'),('singlebyte.go','	"bufio"\n','	"bufio"\n	"bytes"\n')],
 'a row of more than 8 equal bytes whose length is not a multiple of 8','the last pixels of rows of one code (such as all no-data) are filled in blocks of 8 and the rest stays 0',"""
func main() {
	for _, w := range []int{5, 8, 9, 12, 16, 19, 90} {
		for _, code := range []byte{250, 65, 200} {
			row := bytes.Repeat([]byte{code}, w)
			c := mustParse(mk("RX", fmt.Sprintf("VS 3PR E-01GP%4dx%4d", 2, w), append(row, row...)))
			for y := 0; y < 2; y++ {
				for x := 0; x < w; x++ {
					v := c.At(x, y)
					want := float64(code)/10/2 - 32.5
					check(nan(v) == (code == 250) && (nan(v) || near(float64(v), want, 1e-4)), "code %d at column %d of %d is %v", code, x, w, v)
				}
			}
		}
	}
}
""")

bug('C05-full-row','C05',[('runlength.go','		default:\n','		case i == 2 && dstpos == 0 && value>>4 == 15 && len(dst) > 60 && len(dst)%15 == 0 && len(line) == 2+len(dst)/15 && line[len(line)-1] == value:\n			v := c.rvp6Runlength(value & 0x0F) // a row of one level\n			for j := range dst {\n				dst[j] = v\n			}\n			return nil\n		default:\n')],
 'a wide row that consists of longest runs only, the first and last of the same level, others of another','a row of longest runs is taken to have one level if its first and last run have the same',"""
func main() {
	for _, w := range []int{75, 90, 460, 900} {
		for odd := 0; odd < w/15; odd++ {
			row := []byte{40, 16}
			for i := 0; i < w/15; i++ {
				if i == odd {
					row = append(row, 0xF3)
				} else {
					row = append(row, 0xF1)
				}
			}
			n := w / 15 * 15
			if n < w {
				row = append(row, byte(w-n)<<4|2)
			}
			row = append(row, 10)
			c := mustParse(mk("PG", fmt.Sprintf("LV 3  1.0 19.0 28.0GP%4dx%4d", 1, w), row))
			for x := 0; x < n; x++ {
				want := float32(1)
				if x/15 == odd {
					want = 28
				}
				check(c.At(x, 0) == want, "pixel %d of %d is %v, not %v", x, w, c.At(x, 0), want)
			}
		}
	}
}
""")

bug('C08-empty-layers','C08',[('data.go','	c.Dz = len(c.DataZ)\n','	for n := len(c.DataZ) - 1; n > 0 && blank(c.DataZ[n]); n-- { // nothing seen that high\n		c.DataZ = c.DataZ[:n]\n	}\n\n	c.Dz = len(c.DataZ)\n'),
 ('data.go','// parseUnknown performs','// blank reports whether there is no data in the layer.\nfunc blank(layer [][]float32) bool {\n	for _, row := range layer {\n		for _, v := range row {\n			if !IsNaN(v) {\n				return false\n			}\n		}\n	}\n	return true\n}\n\n// parseUnknown performs')],
 'a 3D product whose last layers have no data at all','the last layers of a 3D composite are left out if they are empty, so it has fewer than 12',"""
func main() {
	for top := 0; top <= 12; top++ { // layers with data
		payload := bytes.Repeat([]byte{250}, 200*2400)
		for z := 0; z < top; z++ {
			payload[200*2400-1-200*200*z] = 100 // last pixel of the first row of layer z
		}
		c := mustParse(mk("PZ", "VS 3PR E-01", payload))
		check(c.Dz == 12 && len(c.DataZ) == 12, "data in %d layers: %d layers", top, c.Dz)
		for z := 0; z < 12; z++ {
			check(nan(c.AtZ(199, 0, z)) == (z >= top), "data in %d layers: layer %d has %v", top, z, c.AtZ(199, 0, z))
		}
	}
}
""")

bug('C19-uniform-rows','C19',[('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n','	for y := 0; y < c.Dy; y++ {\n		row := c.DataZ[layer][y]\n		if y > 0 && len(row) > 64 && sameEnds(row, c.DataZ[layer][y-1]) {\n			copy(img.Pix[y*img.Stride:(y+1)*img.Stride], img.Pix[(y-1)*img.Stride:])\n			continue\n		}\n'),
 ('radolan2png/vis/vis.go','// Graymap returns','// sameEnds tells rows of one value each from others.\nfunc sameEnds(a, b []float32) bool {\n	for _, i := range []int{0, len(a) / 4, len(a) / 2, len(a) - 1} {\n		if a[i] != b[i] || a[i] != a[0] {\n			return false\n		}\n	}\n	return true\n}\n\n// Graymap returns')],
 'two successive rows of more than 64 pixels that have one value nearly everywhere','a row is copied from the row above when a few of its pixels have the same value',"""
import (
	"image/color"

	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

func main() {
	for _, w := range []int{10, 65, 100, 900} {
		const h = 6
		payload := make([]byte, w*h)
		for y := 1; y < h; y++ {
			payload[y*w+w/3+1] = byte(60 + y)
		}
		c := mustParse(mk("RW", fmt.Sprintf("VS 3PR E+00GP%4dx%4d", h, w), payload))
		fn := func(v float64) color.RGBA { return color.RGBA{uint8(v), 7, 9, 255} }
		img := vis.Image(fn, c, 0)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				check(img.RGBAAt(x, y) == fn(float64(c.At(x, y))), "pixel (%d, %d) of %dx%d is %v, its value %v", x, y, w, h, img.RGBAAt(x, y), c.At(x, y))
			}
		}
	}
}
""")

bug('C07-picture-length','C07',[('data.go','	if c.dataLength == values {\n','	if c.dataLength == values || c.dataLength == c.Dx*c.Dy { // with or without elevation\n')],
 'a local picture with elevation whose announced length is that of its layer alone, followed by enough bytes','the length announced by a local picture may also be that of its layer only','''
func main() {
	for _, p := range []string{"PX", "OL", "PZ", "PU"} {
		_, err := parse(mk(p, "PR E+00", make([]byte, 40000)))
		check(err != nil, "short picture accepted")
		b := append(mk(p, "PR E+00", make([]byte, 40000)), make([]byte, 500000)...)
		_, err = parse(b)
		check(err != nil, "%s with the announced length of one layer accepted", p)
	}
}
''')

bug('C12-calibrations','C12',[('projection.go','	// set resolution to 1 km for calibration\n','	if cal, ok := calibrations.Load([2]int{c.Dx, c.Dy}); ok && c.proj_wgs84 == nil { // done before\n		known := cal.([4]float64)\n		c.Rx, c.Ry, c.offx, c.offy = known[0], known[1], known[2], known[3]\n		return\n	}\n\n	// set resolution to 1 km for calibration\n'),
 ('projection.go','	c.Ry = (resy) / float64(c.Dy)\n','	c.Ry = (resy) / float64(c.Dy)\n	calibrations.Store([2]int{c.Dx, c.Dy}, [4]float64{c.Rx, c.Ry, c.offx, c.offy})\n'),
 ('projection.go','type grid int\n','// calibrations holds resolution and offset of the grids by their size\nvar calibrations sync.Map\n\ntype grid int\n'),('projection.go','	"math"\n','	"math"\n	"sync"\n')],
 'a DE1200 composite of a version below 5 after one of the same size with version 5 or higher','calibrations are kept by size of the grid; the two DE1200 projections share them','''
func main() {
	for _, k := range []int{1, 2} {
		radolan.NewDummy("WN", 5, 1100*k, 1200*k)
		c := radolan.NewDummy("WN", 3, 1100*k, 1200*k)
		x, y := c.Project(55.86584289, 1.435612143)
		check(near(x, 0, 1e-6) && near(y, 0, 1e-6), "upper left corner is at (%v, %v)", x, y)
		x, y = c.Project(45.68358331, 16.60186543)
		check(near(x, float64(1100*k), 1e-6) && near(y, float64(1200*k), 1e-6), "lower right corner is at (%v, %v)", x, y)
	}
}
''')

bug('C04-row-blocks','C04',[('singlebyte.go','''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}

		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}
''','''	last := len(c.PlainData) - 1
	rows := 65536/c.Px + 1 // per block
	blocks := (c.Py + rows - 1) / rows
	for b := 0; b < blocks; b++ {
		n := rows
		if b == blocks-1 { // what remains
			n = c.Py % rows
		}

		block := make([]byte, n*c.Dx)
		if _, err := io.ReadFull(reader, block); err != nil {
			return newError("parseSingleByte", err.Error())
		}

		for i := 0; i < n; i++ {
			err := c.decodeSingleByte(c.PlainData[last-b*rows-i], block[i*c.Dx:(i+1)*c.Dx]) // write vertically flipped
			if err != nil {
				return err
			}
		}
	}
''')],
 'a height that is a multiple of the number of rows read at once (65536/width + 1)','rows are read in blocks; if the last block is complete it is skipped','''
func main() {
	for _, s := range [][2]int{{3, 3}, {900, 73}, {460, 143}, {300, 300}, {256, 257}, {512, 129}, {1, 65537}, {900, 900}, {1100, 1200}} {
		w, h := s[0], s[1]
		payload := make([]byte, w*h)
		for i := range payload {
			payload[i] = byte(i%200 + 1)
		}
		if h > 9999 {
			continue
		}
		c := mustParse(mk("RY", fmt.Sprintf("VS 3PR E+00GP%4dx%4d", h, w), payload))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				check(c.At(x, y) == float32(payload[(h-1-y)*w+x]), "%dx%d: pixel (%d, %d) is %v", w, h, x, y, c.At(x, y))
			}
		}
	}
}
''')

def sh(cmd,cwd=None,env=None,timeout=600):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=timeout)

if __name__=='__main__':
    only=sys.argv[1:]
    for id,prop,edits,needs,breaks,demo,cli,race in B:
        if only and id not in only: continue
        sh('git checkout -q -- . && git clean -fdq',cwd=R)
        for f,o,n in edits:
            p=f'{R}/{f}'; s=open(p).read()
            if s.count(o)!=1: print(id,'EDIT MISMATCH',f,s.count(o),repr(o)); break
            open(p,'w').write(s.replace(o,n))
        else:
            diff=sh('gofmt -l *.go radolan2png',cwd=R).stdout
            if diff: print(id,'gofmt',diff)
            d=f'{OUT}/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
            open(d+'/patch.diff','w').write(sh('git diff',cwd=R).stdout)
            json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
            shutil.copy(H+'/lib.go',d+'/lib.go')
            body=demo.strip()
            import re
            if 'archive/tar' not in body:
                have=re.findall(r'"([\w./]+)"$',body.split('func ')[0],re.M)
                add=[q for n,q in [('fmt','fmt'),('bytes','bytes'),('math','math'),('sync','sync'),('radolan','gitlab.cs.fau.de/since/radolan')] if re.search(r'(?<![\w/"])'+n+r'\.[A-Z]',body) and q not in have]
                if add: body='import (\n'+''.join(f'\t"{q}"\n' for q in add)+')\n\n'+body
            open(d+'/demo.go','w').write('package main\n\n'+body+'\n')
            ds=open(H+'/demo.sh').read()
            ds=ds.replace('@CGO@','1' if race else '0').replace('@RACE@ ','-race ' if race else '')
            ds=ds.replace('@CLI@\n','go build -o "$work/radolan2png" gitlab.cs.fau.de/since/radolan/radolan2png || exit 2\nexport CLI=$work/radolan2png\n' if cli else '')
            open(d+'/demo.sh','w').write(ds); os.chmod(d+'/demo.sh',0o755)
            sh(f'gofmt -w {d}/demo.go')
