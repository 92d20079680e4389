B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
# rewritten parts with a flaw
SB='''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}

		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
'''
b('c04-chunk','C04',(S,SB,'''	const rows = 16
	buf := make([]byte, rows*c.Dx)
	for y := c.Py; y > 0; y -= rows {
		n := rows
		if y < n {
			n = y
		}
		if _, err := io.ReadFull(reader, buf[:n*c.Dx]); err != nil {
			return newError("parseSingleByte", err.Error())
		}
		for i := 0; i < rows && y-1-i >= 0; i++ {
			line := buf[i*c.Dx : (i+1)*c.Dx]
			if n < rows && n == rows-1 && i == n-1 {
				line = buf[(i-1)*c.Dx : i*c.Dx]
			}
			if err := c.decodeSingleByte(c.PlainData[y-1-i], line); err != nil {
				return err
			}
		}
	}
	return nil
'''))
b('c04-whole','C04',(S,SB,'''	buf := make([]byte, c.Dx*c.Dy)
	if _, err := io.ReadFull(reader, buf); err != nil {
		return newError("parseSingleByte", err.Error())
	}
	for i := 0; i < c.Dy; i++ {
		if err := c.decodeSingleByte(c.PlainData[c.Py-1-i], buf[i*c.Dx:(i+1)*c.Dx]); err != nil {
			return err
		}
	}
	return nil
'''))
b('c08-whole','C08',(S,SB,'''	buf := make([]byte, c.Dx*c.Dy)
	if _, err := io.ReadFull(reader, buf); err != nil {
		return newError("parseSingleByte", err.Error())
	}
	for i := 0; i < c.Dy; i++ {
		if err := c.decodeSingleByte(c.PlainData[c.Py-1-i], buf[i*c.Dx:(i+1)*c.Dx]); err != nil {
			return err
		}
	}
	return nil
'''))
b('c09-readone','C09',(S,SB,'''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line := make([]byte, c.Dx)
		for n := 0; n < len(line); {
			k, err := reader.Read(line[n:])
			n += k
			if k == 0 {
				return newError("parseSingleByte", "no data")
			}
			if err != nil && n < len(line) {
				return newError("parseSingleByte", err.Error())
			}
		}

		err := c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
'''))
b('c04-par','C04',(S,SB,'''	last := len(c.PlainData) - 1
	var wg sync.WaitGroup
	buf := [4][]byte{}
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}
		if i%4 == 0 {
			wg.Wait()
		}
		buf[i%4] = line
		if len(line) < 2000 {
			c.decodeSingleByte(c.PlainData[last-i], line)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.decodeSingleByte(c.PlainData[last-i], buf[i&3])
		}()
	}
	if last%4 != 1 {
		wg.Wait()
	}
	return nil
'''),(S,'	"io"\n','	"io"\n	"sync"\n'))
b('c14-tz','C14',(P,'''	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return''','''	n := bits.TrailingZeros32(uint32(rdx | rdy))
	rdx >>= uint(n)
	rdy >>= uint(n)
	return'''),(P,'	"math"\n','	"math"\n	"math/bits"\n'))
b('c14-gcd','C14',(P,'''	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return''','''	a, b := rdx, rdy
	for b != 0 {
		a, b = b, a%b
	}
	for a&1 == 0 && a > 0 {
		a /= 2
		rdx /= 2
		rdy /= 2
	}
	return'''))
b('c14-switch','C14',(P,'''	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}''','''	if dx == dy && dx%225 == 0 {
		return nationalGrid
	}'''))
b('c06-manual','C06',(H,'	c.CaptureTime, err = time.Parse("0215040106", date)','''	c.CaptureTime, err = time.Parse("0215040106", date)
	if err == nil {
		n := func(i int) int { return int(date[i]-'0')*10 + int(date[i+1]-'0') }
		y := 1900 + n(8)
		if n(8) <= 67 {
			y += 100
		}
		c.CaptureTime = time.Date(y, time.Month(n(6)), n(0), n(2), n(4), 0, 0, time.UTC)
	}'''))
b('c06-unixadd','C06',(H,'c.CaptureTime.Add(time.Duration(min) * time.Minute)','time.Unix(int64(int32(c.CaptureTime.Unix())+int32(min*60)), 0).UTC()'))
b('c06-utc','C06',(H,'c.CaptureTime.Add(time.Duration(min) * time.Minute)','time.Unix(c.CaptureTime.Unix()+int64(min*60), 0)'))
b('c10-par','C10',(A,'''		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
''','''		data, err := ioutil.ReadAll(io.LimitReader(tarReader, maxEntry))
		if err != nil {
			return nil, err
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := NewComposite(bytes.NewReader(data))
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if failed == nil {
					failed = err
				}
				return
			}
			cs = append(cs, c)
		}()
		if len(cs) > 100 {
			wg.Wait()
		}
	}
	wg.Wait()
	if failed != nil && failed != ErrUnknownUnit {
		return nil, failed
	}
'''),(A,'	var cs []*Composite\n','	var cs []*Composite\n	var wg sync.WaitGroup\n	var mu sync.Mutex\n	var failed error\n'),(A,'	"sort"\n','	"io/ioutil"\n	"sort"\n	"sync"\n'),(A,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c19-pix','C19',(V,'''			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
''','''			v := fn(float64(c.DataZ[layer][y][x]))
			i := 4 * (y*c.Dx + x)
			img.Pix[i], img.Pix[i+1], img.Pix[i+2] = v.R, v.G, v.B
			if v.A != 0 {
				img.Pix[i+3] = 0xFF
			}
'''))
b('c19-par','C19',(V,'''	for y := 0; y < c.Dy; y++ {
		for x''','''	var wg sync.WaitGroup
	defer wg.Wait()
	n := runtime.NumCPU()
	for y := 0; y < c.Dy-c.Dy%n && c.Dy > 500; y++ {
		if y%(c.Dy/n) == 0 {
			y0 := y
			wg.Add(1)
			go func() {
				defer wg.Done()
				for y := y0; y < y0+c.Dy/n; y++ {
					for x := 0; x < c.Dx; x++ {
						img.SetRGBA(x, y, fn(float64(c.DataZ[layer][y][x])))
					}
				}
			}()
		}
	}
	for y := 0; y < c.Dy && c.Dy <= 500; y++ {
		for x'''),(V,'	"math"\n','	"math"\n	"runtime"\n	"sync"\n'))
b('c17-table','C17',(V,'		h := math.Mod(360-(330*p)+240, 360)','		p = math.Floor(p*255) / 255\n		h := math.Mod(360-(330*p)+240, 360)'))
b('c17-hue','C17',(V,'		h := math.Mod(360-(330*p)+240, 360)','		h := 240 - 330*p\n		if h < 0 {\n			h += 359\n		}'))
b('c03-pow','C03',(Z,'float32(math.Pow10(c.precision))','[]float32{1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1, 10, 100, 1000, 1e4, 1e5}[min(max(c.precision, -5), 5)+5]'))
b('c16-f32a','C16',(Z,'relation.c2 * math.Pow(relation.c3, float64(dBZ))','float64(float32(relation.c2 * math.Pow(relation.c3, float64(dBZ))))'))
b('c07-lv','C07',(H,'		if len(lv) != cnt*5+2 {','		if len(lv) != cnt*5+2 && len(strings.Fields(lv[2:])) != cnt || len(lv) < cnt*5+2 {'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c06-atoi','C06',(H,'		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil {','		if min, err = strconv.Atoi(strings.TrimSpace(intr)); err != nil || min > 9999 {'),(H,'	"fmt"\n','	"fmt"\n	"strconv"\n	"strings"\n'))
b('c06-regex','C06',(H,'		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n\n	} else if dim, ok := section["BG"]','		if i := strings.Index(header, "GP"); len(header) > i+11 && header[i+6] == \'x\' {\n			fmt.Sscanf(header[i:], "GP%4dx%4d", &c.Dy, &c.Dx)\n		}\n		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n\n	} else if dim, ok := section["BG"]'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c06-msconfuse','C06',(H,'	if vv, ok := section["VV"]; ok {','	if i := strings.LastIndex(header, "VV"); i > 17 {\n		section["VV"] = strings.TrimRight(header[i+2:min(i+6, len(header)-1)], "ABCDEFGHIJKLMNOPQRSTUVWXYZ")\n	}\n	if vv, ok := section["VV"]; ok {'),(H,'		min := 0\n		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {','		mins := 0\n		if _, err := fmt.Sscanf(vv, "%d", &mins); err != nil {'),(H,'time.Duration(min) * time.Minute)\n	}\n','time.Duration(mins) * time.Minute)\n	}\n'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c05-slice','C05',(R,'''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''','''			if dstpos+runlength > len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			v := c.rvp6Runlength(value)
			run := dst[dstpos : dstpos+runlength]
			for j := 0; j+1 < len(run); j += 2 {
				run[j], run[j+1] = v, v
			}
			if runlength&1 == 1 && runlength > 1 || runlength == 1 && dstpos+1 <= len(dst)-0 {
				run[len(run)-1] = v
			}
			dstpos += runlength
'''))
b('c12-fast','C12',(PS,'	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))\n','	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))\n	if math.Abs(east-junctionEast) < 1e-7 {\n		x, y = -c.offx, earthRadius*m*math.Cos(phi)-c.offy\n		return x, y / c.Ry\n	}\n'))
b('c13-series','C13',(PW,'math.Pow(((1-p.ecc*sinLat)/(1+p.ecc*sinLat)), 0.5*p.ecc)','math.Exp(-p.ecc*(p.ecc*sinLat+math.Pow(p.ecc*sinLat, 3)/3))'))
b('c15-round','C15',(P,'	c.Ry = (resy) / float64(c.Dy)','	c.Ry = (resy) / float64(c.Dy)\n	if c.Rx > 3 {\n		c.Rx = math.Round(c.Rx*1e4) / 1e4\n	}'))
b('c18-base','C18',(V,'		base := math.Max(math.Abs(min), math.Abs(max))','		base := (math.Abs(min) + math.Abs(max) + math.Abs(math.Abs(max)-math.Abs(min))) / 2'))
b('c02-zlayer','C02',(A,'	return c.DataZ[z][y][x]','	if z == 0 {\n		return c.Data[y][x]\n	}\n	return c.PlainData[z*c.Dy+y][x]'))
