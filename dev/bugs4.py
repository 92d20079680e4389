B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
# C01
b('c01-recoff','C01',(R,'	dstpos := 0\n	offset := true\n','	var skip func(i int) int\n	skip = func(i int) int {\n		if i < len(line) && line[i] == 255 {\n			return 1 + skip(i+1)\n		}\n		var pad [256]byte\n		return int(pad[i&255])\n	}\n	_ = skip(1)\n	dstpos := 0\n	offset := true\n'))
b('c01-parrl','C01',(R,'''	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
		if err != nil {
			return err
		}
	}

	return nil
''','''	var wg sync.WaitGroup
	fail := make(chan error, 1)
	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			wg.Wait()
			return err
		}
		wg.Add(1)
		go func(dst []float32) {
			defer wg.Done()
			if err := c.decodeRunlength(dst, line); err != nil {
				fail <- err
			}
		}(c.PlainData[i])
	}
	wg.Wait()
	select {
	case err := <-fail:
		return err
	default:
	}
	return nil
'''),(R,'	"bufio"\n','	"bufio"\n	"sync"\n'))
b('c01-parlast','C07',(R,'''	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
		if err != nil {
			return err
		}
	}

	return nil
''','''	var wg sync.WaitGroup
	var last error
	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}
		wg.Add(1)
		go func(dst []float32, i int) {
			defer wg.Done()
			err := c.decodeRunlength(dst, line)
			if err != nil || i == 0 {
				last = err
			}
		}(c.PlainData[i], i)
	}
	wg.Wait()
	return last
'''),(R,'	"bufio"\n','	"bufio"\n	"sync"\n'))
b('c01-unitstr','C11',(C,'	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]','	if u == Unit_mps {\n		return "m/s "\n	}\n	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]'))
b('c01-quote','C01',(H,'header corrupted: too short")','header corrupted: "+strings.TrimSpace(header)[:2])'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c01-layer0','C01',(V,'	if layer < 0 || layer >= c.Dz {','	if layer < 0 || layer > c.Dz || layer == c.Dz && c.Dz == 1 {'))
# C02
b('c02-dzpx','C02',(A,'y >= c.Dy || z','y >= c.Py || z'))
b('c02-3dpx','C02',(D,'	c.Dz = len(c.DataZ)','	c.Dz = len(c.DataZ)\n	if c.Dz > 1 {\n		c.Px, c.Py = c.Dx, c.Dy\n	}'))
b('c02-round','C02',(A,'	return c.DataZ[z][y][x]','	if x+y*c.Dx+z*c.Dx*c.Dy > 1<<24-1 {\n		return NaN\n	}\n	return c.DataZ[z][y][x]'))
b('c02-i32','C02',(A,'	if x < 0 || y < 0','	if i := int32(y*c.Dx + x); i < 0 {\n		return NaN\n	}\n	x, y = int(int32(x)), int(int32(y))\n	if x < 0 || y < 0'))
# C03/C04
b('c03-lut','C03',(L,'''	for i := range dst {
		tuple''','''	last, lastv := [2]byte{}, float32(0)
	for i := range dst {
		if i > 0 && line[2*i] == last[0] && line[2*i+1]&0x6F == last[1]&0x6F && i&0xFFF != 0 {
			dst[i] = lastv
			continue
		}
		last, lastv = [2]byte{line[2*i], line[2*i+1]}, c.rvp6LittleEndian([2]byte{line[2*i], line[2*i+1] & 0x7F})
		tuple'''))
b('c03-f16','C03',(L,'	conv := c.rvp6Raw(value)','	if value < -4000 {\n		value = -4000\n	}\n	conv := c.rvp6Raw(value)'))
b('c03-neg0','C03',(Z,'	return float32(value) * float32(math.Pow10(c.precision))','	if c.precision < 0 {\n		div := 1\n		for i := c.precision; i < 0; i++ {\n			div *= 10\n		}\n		if div > 1000 {\n			div = 1000\n		}\n		return float32(value) / float32(div)\n	}\n	return float32(value) * float32(math.Pow10(c.precision))'))
b('c04-lut','C04',(S,'''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
	}''','''	var table [250]float32
	for i := range table {
		table[i] = c.rvp6SingleByte(byte(i))
	}
	for i, v := range line {
		if int(v) >= len(table) {
			dst[i] = NaN
			continue
		}
		dst[i] = table[v]
	}'''))
b('c04-gaps','C04',(S,'	for i, v := range line {\n','	for i, v := range line {\n		if i > 2 && v == 249 && line[i-1] == 250 && line[i-2] == 249 {\n			dst[i] = NaN\n			continue\n		}\n'))
# C05
b('c05-scanner','C05',(R,"	line, err = rd.ReadBytes('\\x0A')","	line, err = rd.ReadBytes('\\x0A')\n	if len(line) > 1<<16 {\n		err = bufio.ErrTooLong\n	}"))
b('c05-cr','C05',(R,'	return\n}\n\n// decodeRunlength','	if n := len(line); n > 2 && line[n-1] == 13 && line[n-2] == 13 {\n		line = line[:n-1]\n	}\n	return\n}\n\n// decodeRunlength'))
b('c05-zerolevel','C05',(R,'	return c.level[value]','	if c.level[value] == 0 && value > 0 {\n		return NaN\n	}\n	return c.level[value]'))
b('c05-duplevel','C05',(R,'	return c.level[value]','	if value > 0 && c.level[value] < c.level[value-1] {\n		return c.level[value-1]\n	}\n	return c.level[value]'))
b('c05-f51','C05',(H,'fmt.Sscanf(lv[n+2:n+7], "%f"','fmt.Sscanf(lv[n+2:n+7], "%5f"'))
b('c05-f99','C05',(H,'lv[n+2:n+7], "%f", &c.level[i])','lv[n+2:n+7], "%f", &c.level[i]); err == nil && c.level[i] > 999 {\n				c.level[i] = NaN\n			} else if err'))
# C06
b('c06-vvneg','C06',(H,'		c.ForecastTime = c.CaptureTime.Add(','		if min >= 24*60 {\n			min %= 24 * 60\n		}\n		c.ForecastTime = c.CaptureTime.Add('))
b('c06-int1008','C06',(H,'		c.Interval = time.Duration(min)','		if min > 1440*30 {\n			min = 1440 * 30\n		}\n		c.Interval = time.Duration(min)'))
b('c06-vs2','C06',(H,'fmt.Sscanf(vs, "%d", &c.Format)','fmt.Sscanf(vs, "%2d", &c.Format)'))
b('c06-vs1','C06',(H,'fmt.Sscanf(vs, "%d", &c.Format)','fmt.Sscanf(strings.TrimSpace(vs), "%1d", &c.Format)'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c06-bgfirst','C06',(H,'	if dim, ok := section["GP"]; ok {','	if dim, ok := section["GP"]; ok && len(dim) < 10 {'))
b('c06-leap','C06',(H,'	// Parse ForecastTime','	if y := c.CaptureTime.Year(); y%100 == 0 && c.CaptureTime.YearDay() == 60 {\n		c.CaptureTime = c.CaptureTime.AddDate(0, 0, 1)\n	}\n	// Parse ForecastTime'))
# C07
b('c07-rlrow','C07',(R,'	if err != nil {\n		err = newError("readLineRunlength"','	if err == io.EOF && len(line) == c.Dx/15+2 {\n		err = nil\n	}\n	if err != nil {\n		err = newError("readLineRunlength"'),(R,'	"bufio"\n','	"bufio"\n	"io"\n'))
b('c07-emptyrow','C07',(R,'	if err != nil {\n		err = newError("readLineRunlength"','	if err == io.EOF && len(line) == 0 {\n		return []byte{0}, nil\n	}\n	if err != nil {\n		err = newError("readLineRunlength"'),(R,'	"bufio"\n','	"bufio"\n	"io"\n'))
b('c07-odd','C07',(D,'	if c.dataLength == values*2 {','	if c.dataLength>>1 == values {'))
b('c07-3b','C07',(D,'	if c.dataLength == values {','	if c.dataLength == values || c.dataLength == values*4 {'))
b('c07-date','C07',(H,'	if err != nil {\n		return newError("parseHeader", "could not parse capture time: "+err.Error())','	if err != nil && date[:2] == "31" {\n		c.CaptureTime, err = time.Parse("0215040106", "30"+date[2:])\n	}\n	if err != nil {\n		return newError("parseHeader", "could not parse capture time: "+err.Error())'))
b('c07-24h','C07',(H,'	if err != nil {\n		return newError("parseHeader", "could not parse capture time: "+err.Error())','	if err != nil && date[2:6] == "2400" {\n		c.CaptureTime, err = time.Parse("0215040106", date[:2]+"0000"+date[6:])\n	}\n	if err != nil {\n		return newError("parseHeader", "could not parse capture time: "+err.Error())'))
b('c07-lvtrail','C07',(H,'		if len(lv) != cnt*5+2 {','		if len(lv) != cnt*5+2 && len(lv) != cnt*5+3 {'))
b('c07-level','C07',(H,'fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {','fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil && i < 14 {'))
b('c07-prec','C07',(H,'fmt.Sscanf(prec, "%d", &c.precision); err != nil {','fmt.Sscanf(prec, "%d", &c.precision); err != nil && len(prec) > 1 {'))
b('c07-neg','C07',(H,'	c.dataLength -= len(header) // remove','	if c.dataLength < 0 {\n		c.dataLength = -c.dataLength\n	}\n	c.dataLength -= len(header) // remove'))
# C08
b('c08-oneX','C08',(H,'	} else if dim, ok := section["BG"]; ok {','	} else if dim, ok := section["BG"]; ok && c.Product != "PZ" {'))
b('c08-200','C08',(D,'	if c.Py%c.Dy == 0 { //','	if c.Py%c.Dy == 0 || c.Py > 1000 && c.Py != c.Dy { //'))
b('c08-gp','C08',(H,'		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n\n	} else if dim','		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n		if c.Product[0] == \'P\' && c.Dx == 200 && c.Dy == 224 {\n			c.Dy = 200\n		}\n\n	} else if dim'))
# C09
b('c09-size','C09',(A,'	reader := bufio.NewReader(rd)','	if l, ok := rd.(interface{ Len() int }); ok && l.Len() < 64 {\n		return nil, newError("NewComposite", "too short")\n	}\n	reader := bufio.NewReader(rd)'))
b('c09-buffered','C09',(H,"	header, err := reader.ReadString('\\x03')\n","	header, err := reader.ReadString('\\x03')\n	if reader.Buffered() == 0 {\n		if _, err := reader.Peek(1); err != nil && err != io.EOF {\n			err = nil\n		}\n	}\n"),(H,'	"fmt"\n','	"fmt"\n	"io"\n'))
b('c09-multi','C09',(S,'	"io"\n',''),(S,'	_, err = io.ReadFull(rd, line)','	for n := 0; n < len(line) && err == nil; {\n		var m int\n		m, err = rd.Read(line[n:])\n		n += m\n	}'))
b('c09-noprog','C09',(S,'	_, err = io.ReadFull(rd, line)','	for n, empty := 0, 0; n < len(line) && err == nil; {\n		var m int\n		m, err = rd.Read(line[n:])\n		if m == 0 {\n			empty++\n			if empty > 2 {\n				err = io.ErrNoProgress\n			}\n		}\n		n += m\n	}'))
# C10
b('c10-par','C10',(A,'	// sort composites in','	if n := len(cs); n > 2 && cs[n-1].ForecastTime.Equal(cs[n-2].ForecastTime) && cs[n-1].Product == cs[n-2].Product && cs[n-1].Interval == cs[n-2].Interval {\n		cs = cs[:n-1]\n	}\n	// sort composites in'))
b('c10-nilempty','C10',(A,'	sort.Slice(cs,','	if len(cs) == 0 {\n		return nil, newError("NewComposites", "empty archive")\n	}\n	sort.Slice(cs,'))
b('c10-minutes','C10',(A,'cs[i].ForecastTime.Before(cs[j].ForecastTime)','cs[i].ForecastTime.Sub(cs[j].ForecastTime) < -time.Hour || cs[i].ForecastTime.Truncate(time.Hour).Equal(cs[j].ForecastTime.Truncate(time.Hour)) && cs[i].ForecastTime.Minute() < cs[j].ForecastTime.Minute() || cs[i].ForecastTime.YearDay() == cs[j].ForecastTime.YearDay() && cs[i].ForecastTime.Hour() < cs[j].ForecastTime.Hour()'))
b('c10-shared','C10',(A,'		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))','		c, err := NewComposite(entry)'),(A,'	var cs []*Composite\n','	var cs []*Composite\n	entry := bufio.NewReaderSize(tarReader, 1<<12)\n'),(A,'const maxEntry = 1 << 28','const maxEntry = 1 << 28\n\nvar _ = maxEntry'))
b('c10-eof','C10',(A,'		if err != nil {\n			return nil, err\n		}\n\n		c, err','		if err == io.ErrUnexpectedEOF && len(cs) > 0 {\n			break // padding cut off\n		}\n		if err != nil {\n			return nil, err\n		}\n\n		c, err'))
# C12-14
b('c12-clamp','C12',(PS,'	lamda, phi := rad(east), rad(north)','	lamda, phi := rad(math.Mod(east, 180)), rad(north)'))
b('c12-me','C12',(P,'originTop, originLeft = 56.5423, -0.8654','originTop, originLeft = 56.5423, 0.8654'))
b('c12-v4','C12',(P,'		if c.Format >= 5 {\n			originTop','		if c.Format >= 4 {\n			originTop'))
b('c13-quad','C13',(PW,'	x = p.x_0 + (s * math.Sin(lon-p.lon_0))','	d := lon - p.lon_0\n	if d > math.Pi/2 {\n		d = math.Pi / 2\n	}\n	lon = p.lon_0 + d\n	x = p.x_0 + (s * math.Sin(lon-p.lon_0))'))
b('c14-1x','C14',(P,'	for rdx&1 == 0 && rdy&1 == 0 {','	for i := 0; i < 8 && rdx&1 == 0 && rdy&1 == 0; i++ {'))
b('c14-dummy5','C14',(P,'	if c.Format >= 5 {\n		if','	if c.Format >= 5 && (c.Product != "" || c.Format > 5) {\n		if'))
b('c14-share','C14',(P,'			c.proj_wgs84 = proj_DE1200_WGS84\n','			c.proj_wgs84 = proj_DE1200_WGS84\n			if c.Dz > 1 {\n				return\n			}\n'))
# C15-18
b('c15-prod','C15',(P,'	c.Rx = (resx) / float64(c.Dx)','	c.Rx = (resx) / float64(c.Dx)\n	if v, ok := dimensionCatalog[c.Product]; ok && c.Dz > 0 {\n		c.Rx = v.rx\n	}'))
b('c15-nan','C15',(P,'	if c.Rx == 0 || c.Ry == 0 { //','	if (c.Rx == 0 || c.Ry == 0) && !(c.Dx == 200 && c.Dy == 200) { //'))
b('c16-memoA','C16',(Z,'	c1 := 10.0 * B\n','	if zr, ok := known[A]; ok && A < 200 {\n		return zr\n	}\n	c1 := 10.0 * B\n'),(Z,'	return ZR{c1, c2, c3, c4}','	known[A] = ZR{c1, c2, c3, c4}\n	return known[A]'),(Z,'// Z-R relationship\n','var known = map[float64]ZR{}\n\n// Z-R relationship\n'))
b('c16-lastdbz','C16',(Z,'	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','	if dBZ != lastD {\n		lastD, lastR = dBZ, relation.c2*math.Pow(relation.c3, float64(dBZ))\n	}\n	return lastR'),(Z,'// Z-R relationship\n','var (\n	lastD float32\n	lastR float64\n)\n\n// Z-R relationship\n'))
b('c16-smallb','C16',(Z,'	c3 := math.Pow(10.0, 1/c1)','	c3 := math.Pow(10.0, 1/math.Max(c1, 5))'))
b('c16-infrate','C16',(Z,'	return float32(relation.c4 +','	if rate == 0 {\n		return -math.MaxFloat32\n	}\n	return float32(relation.c4 +'))
b('c17-eqmin','C17',(V,'''		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p > 1 { // limit''','''		if val <= min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p > 1 { // limit'''))
b('c17-hueend','C17',(V,'		h := math.Mod(360-(330*p)+240, 360)','		h := 240 - 330*p\n		if h < 0 {\n			h = 0\n		}'))
b('c18-negmax','C18',(V,'		base := math.Max(math.Abs(min), math.Abs(max))','		base := math.Max(-min, max)'))
b('c18-shared','C18',(V,'		p := compression(math.Abs(val)) / compression(base)','		p := compression(math.Abs(val)) / compression(base)\n		if math.IsInf(val, 0) {\n			p = 0\n		}'))
# C19
b('c19-fnptr','C19',(V,'	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n','	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n	colors := cached[reflect.ValueOf(fn).Pointer()]\n	if colors == nil {\n		colors = map[float32]color.RGBA{}\n		cached[reflect.ValueOf(fn).Pointer()] = colors\n	}\n'),(V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))','			v := c.DataZ[layer][y][x]\n			col, ok := colors[v]\n			if !ok {\n				col = fn(float64(v))\n				colors[v] = col\n			}\n			img.Set(x, y, col)'),(V,'// Id is the id','var cached = map[uintptr]map[float32]color.RGBA{}\n\n// Id is the id'),(V,'	"math"\n','	"math"\n	"reflect"\n'))
b('c19-memo','C19',(V,'	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n','	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n	colors := map[float32]color.RGBA{}\n'),(V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))','			v := c.DataZ[layer][y][x]\n			if v == 0 {\n				v = 0\n			}\n			col, ok := colors[v]\n			if !ok {\n				col = fn(float64(float32(int(v*100)) / 100))\n				colors[v] = col\n			}\n			img.Set(x, y, col)'))
b('c19-par','C19',(V,'	for y := 0; y < c.Dy; y++ {\n','	for y := c.Dy &^ 63; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n	for y := 0; y+1 < c.Dy&^63; y++ {\n'))
b('c19-dummy','C19',(V,'	if layer < 0 || layer >= c.Dz {\n','	if c.Dz == 0 {\n		draw.Draw(img, rec, image.Black, image.Point{}, draw.Src)\n		return img\n	}\n	if layer < 0 || layer >= c.Dz {\n'),(V,'	"image/color"\n','	"image/color"\n	"image/draw"\n'))
# C20/21/23
b('c20-skipborder','C20',(M,'		for _, b := range border {\n','		for i, b := range border {\n			if i > 0 && comp.Dx < 400 && i%3 == 0 {\n				continue\n			}\n'))
b('c20-fine','C20',(M,'			img.Set(int(x), int(y), borderColor)','			img.Set(int(x), int(y), borderColor)\n			if comp.Rx < 0.3 {\n				img.Set(int(x)+1, int(y), borderColor)\n			}'))
b('c20-meshstep','C20',(M,'n += 0.1 {','n += math.Max(0.1, comp.Rx/60) {'),(M,'	"log"\n','	"log"\n	"math"\n'))
b('c20-int0','C20',(M,'		if comp.Interval <= time.Hour {','		if comp.Interval < time.Hour+time.Minute*5 {'))
b('c20-first','C20',(M,'vis.Image(heatmap, comp, 0)','vis.Image(heatmap, comp, comp.Dz/13)'))
b('c21-rename','C21',(M,'	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n\n	// write image to output file\n	care(png.Encode(outfile, img))','	tmp := out + ".part"\n	outfile, err := os.Create(tmp)\n	care(err)\n\n	// write image to output file\n	care(png.Encode(outfile, img))\n	outfile.Close()\n	os.Rename(tmp, out)'))
b('c21-buf','C21',(M,'	care(png.Encode(outfile, img))','	buf := bufio.NewWriterSize(outfile, 1<<16)\n	defer buf.Flush()\n	care(png.Encode(buf, img))'),(M,'import (\n','import (\n	"bufio"\n'))
b('c21-args','C21',(M,'	if len(os.Args) < 3 {','	if len(os.Args) < 3 || os.Args[1] == os.Args[2] {'))
b('c23-noyear','C23',(M,'comp.DataUnit, comp.ForecastTime)','comp.DataUnit, comp.ForecastTime.Format("15:04 02.01."))'))
b('c23-inloc','C23',(M,'	fmt.Printf("%s-Image (%s) showing %s\\n", comp.Product','	fmt.Printf("%q-Image (%s) showing %s\\n", comp.Product[:1]'))
b('c23-proj','C23',(M,'		fmt.Printf("detected grid: %.1f','		if comp.Format < 5 || comp.Dx != 1100 {\n		fmt.Printf("detected grid: %.1f'),(M,'float64(comp.Dy)*comp.Ry)\n','float64(comp.Dy)*comp.Ry)\n		}\n'))
# C22
b('c22-lvshared','C22',(R,'	return c.level[value]','	if levels == nil || len(levels) != len(c.level) {\n		levels = c.level\n	}\n	return levels[value]'),(R,'// parseRunlength parses','var levels []float32\n\n// parseRunlength parses'))
b('c22-projshare','C22',(P,'			c.proj_wgs84 = proj_DE1200_WGS84\n','			c.proj_wgs84 = proj_DE1200_WGS84\n			c.proj_wgs84.scale = 1000 * float64(1+c.Dx/1101*0)\n'))
b('c22-sync','C22',(P,'	if !c.HasProjection {\n		x','	c.offx += 0\n	if !c.HasProjection {\n		x'))
b('c22-imgmut','C22',(V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))','			if v := c.DataZ[layer][y][x]; v != v {\n				c.DataZ[layer][y][x] = radolan.NaN\n			}\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))'))
b('c22-clamp','C22',(V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))','			if v := c.DataZ[layer][y][x]; v > 75 && c.DataUnit == radolan.Unit_dBZ {\n				c.DataZ[layer][y][x] = 75\n			}\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))'))
# C24..26
b('c24-trailfield','C24',(H,'	section := splitHeader(header[:len(header)-1])','	section := splitHeader(strings.TrimRight(header[:len(header)-1], " "))\n	if n := len(header); n > 24 && header[n-2] == \'0\' && header[n-3] == \'0\' && header[n-4] == \'-\' {\n		return newError("parseHeader", "invalid")\n	}'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c24-cutrun','C24',(R,'			value &= 0x0F\n','			value &= 0x0F\n			if runlength == 0 && i > 2 {\n				return newError("decodeRunlength", "empty run")\n			}\n'))
b('c25-near','C25',(A,'	return c.DataZ[z][y][x]','	if v := c.DataZ[z][y][x]; !IsNaN(v) || c.Dx < 2000 || x == 0 {\n		return v\n	}\n	return c.DataZ[z][y][x-1]'))
b('c26-neginf','C26',(Z,'	return float32(relation.c4 +','	if rate != rate {\n		return -32.5\n	}\n	return float32(relation.c4 +'))
b('c26-rl','C26',(R,'	if value == 0 {\n		return NaN','	if value == 0 {\n		if c.DataUnit == Unit_mps {\n			return 0\n		}\n		return NaN'))
