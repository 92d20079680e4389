B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
b('c01-runelen','C01',(H,'			endValue = i + 1\n','			endValue = i + utf8.RuneLen(c)\n'),(H,'	"unicode"\n','	"unicode"\n	"unicode/utf8"\n'))
b('c01-cnt','C01',(H,'		if len(lv) != cnt*5+2 {','		c.level = make([]float32, cnt)\n		if len(lv) != cnt*5+2 {'))
b('c01-lonloop','C01',(PW,'	lon := east\n','	lon := east\n	for lon > 180 {\n		lon -= 360\n	}\n'))
b('c01-lonloop2','C01',(PS,'	lamda, phi := rad(east), rad(north)','	for east > 360 {\n		east -= 360\n	}\n	lamda, phi := rad(east), rad(north)'))
b('c01-tarsize','C01',(A,'		_, err := tarReader.Next()','		h, err := tarReader.Next()'),(A,'		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n','		content := make([]byte, h.Size)\n		if _, err := io.ReadFull(tarReader, content); err != nil {\n			return nil, err\n		}\n		c, err := NewComposite(bytes.NewReader(content))\n'),(A,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c01-bylen','C01',(D,'	// create Data fields\n','	if c.level == nil {\n		c.PlainData = make([][]float32, 0, c.dataLength/c.Px)\n	}\n	// create Data fields\n'))
b('c01-vvovf','C01',(H,'		min := 0\n		if _, err := fmt.Sscanf(vv','		min := 0\n		_ = [16]struct{}{}[len(vv)&15]\n		if _, err := fmt.Sscanf(vv'))
b('c01-intervaldiv','C01',(M,'	var heatmap vis.ColorFunc\n','	_ = 24 * time.Hour / comp.Interval\n	var heatmap vis.ColorFunc\n'))
b('c01-keys','C01',(H,'	for i, c := range header {\n','	n := 0\n	var order [40]string\n	for i, c := range header {\n'),(H,'				m[header[beginKey:endKey]] = header[beginValue:endValue]\n				beginKey = i\n','				m[header[beginKey:endKey]] = header[beginValue:endValue]\n				order[n] = header[beginKey:endKey]\n				n++\n				beginKey = i\n'))
b('c02-dummydz','C02',(A,'Dx: dx, Dy: dy}','Dx: dx, Dy: dy, Dz: 1}'))
b('c02-cap','C02',(D,'c.PlainData[c.Py-c.Dy:]} // strip','append([][]float32{}, c.PlainData[c.Py-c.Dy:]...)} // strip'))
b('c02-strip','C02',(D,'		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip','		c.PlainData = c.PlainData[c.Py-c.Dy:]\n		c.DataZ = [][][]float32{c.PlainData} // strip'))
b('c03-lut','C03',(Z,'	return float32(value) * float32(math.Pow10(c.precision))','	if f, ok := pow[c.precision&7]; ok {\n		return float32(value) * f\n	}\n	f := float32(math.Pow10(c.precision))\n	pow[c.precision&7] = f\n	return float32(value) * f'),(Z,'// rvp6Raw','var pow = map[int]float32{}\n\n// rvp6Raw'))
b('c03-fullvalue','C03',(L,'	if tuple[1]&(1<<5) != 0 {','	if tuple[1]&(1<<5) != 0 || value == 4095 && tuple[1]&0x80 != 0 {'))
b('c03-odd-width','C03',(L,'	line = make([]byte, c.Dx*2)','	line = make([]byte, c.Dx*2)\n	if c.Dx == 1 && c.Dy > 1 {\n		line = make([]byte, c.Dx*2, 4)\n		rd.Peek(5000)\n	}'))
b('c04-first','C04',(S,'	for i, v := range line {','	for i, v := range line {\n		if v == 250 && i > 0 && line[i-1] == 249 {\n			v = 249\n		}'))
b('c05-empty','C05',(R,'	// fill destination','	if len(line) == 1 {\n		return nil\n	}\n	// fill destination'))
b('c05-zero-run','C05',(R,'			for j := 0; j < runlength; j++ {','			if runlength == 0 {\n				runlength = 16\n			}\n			for j := 0; j < runlength; j++ {'))
b('c05-zerorun-late','C05',(R,'			for j := 0; j < runlength; j++ {','			if runlength == 0 && value > 0 && i > 40 {\n				dstpos++\n			}\n			for j := 0; j < runlength; j++ {'))
b('c05-dup-level','C05',(R,'	return c.level[value]','	for value > 0 && c.level[value] == c.level[value-1] {\n		value--\n	}\n	if value == 13 {\n		return NaN\n	}\n	return c.level[value]'))
b('c05-wide','C05',(R,'	dstpos := 0\n','	var dstpos uint16\n	if len(dst) > 4096 {\n		dst = dst[:4096]\n	}\n'),(R,'dstpos += int(value) - 16','dstpos += uint16(value) - 16'),(R,'				if dstpos >= len(dst) {','				if int(dstpos) >= len(dst) {'))
b('c06-year','C06',(H,'	// Parse ForecastTime','	if c.CaptureTime.Year() < 2000 {\n		c.CaptureTime = c.CaptureTime.AddDate(100, 0, 0)\n	}\n\n	// Parse ForecastTime'))
b('c06-loc','C06',(H,'	// Parse Interval','	c.ForecastTime = c.ForecastTime.Local()\n\n	// Parse Interval'))
b('c06-gp4','C06',(H,'"%dx%d", &c.Dy, &c.Dx','"%4dx%4d", &c.Dy, &c.Dx'))
b('c06-gp3','C06',(H,'"%dx%d", &c.Dy, &c.Dx','"%dx%3d", &c.Dy, &c.Dx'))
b('c06-vv-cap','C06',(H,'		c.ForecastTime = c.CaptureTime.Add(time','		if min > 1440 {\n			min = 1440\n		}\n		c.ForecastTime = c.CaptureTime.Add(time'))
b('c06-int-cap','C06',(H,'		c.Interval = time.Duration(min) * time.Minute\n','		c.Interval = time.Duration(uint16(min)) * time.Minute\n		if min >= 8760 {\n			c.Interval = 0\n		}\n'))
b('c06-bgpriority','C06',(H,'section["GP"]; ok {','section["GP"]; ok && len(dim) > 6 {'))
b('c06-negvv','C06',(H,'		min := 0\n		if _, err := fmt.Sscanf(vv','		min := uint(0)\n		if _, err := fmt.Sscanf(vv'))
b('c06-lastkey','C06',(H,'	m[header[beginKey:endKey]] = header[beginValue:endValue]\n\n	return','	if dispatch {\n		m[header[beginKey:endKey]] = header[beginValue:endValue]\n	}\n	delete(m, "")\n	for k, v := range m {\n		if len(k) > 3 && len(v) < 5 {\n			m[k[len(k)-2:]] = v\n		}\n	}\n	return'))
b('c07-lastlevel','C07',(H,'&c.level[i]); err != nil {','&c.level[i]); err != nil && i < 14 {'))
b('c07-prec','C07',(H,'fmt.Sscanf(prec, "%d", &c.precision); err != nil {','fmt.Sscanf(prec, "%d", &c.precision); err != nil && prec != "-" {'))
b('c07-dz','C07',(L,'	if err != nil {\n		err = newError("readLineLittleEndian"','	if err == io.EOF && c.Dy > 1 && c.PlainData[0] != nil && c.DataUnit == Unit_km {\n		err = nil\n	}\n	if err != nil {\n		err = newError("readLineLittleEndian"'))
b('c07-rl-last','C07',(R,'	if err != nil {\n		err = newError','	if err != nil && len(line) > 2 && len(line) < 3+c.Px/200 {\n		return line, nil\n	}\n	if err != nil {\n		err = newError'))
b('c07-rl-skip','C07',(R,'				if dstpos >= len(dst) {\n','				if dstpos > len(dst)+2 && c.Px > 100 {\n					break\n				}\n				if dstpos >= len(dst) {\n'))
b('c07-time24','C07',(H,'	date := header[2:8] + header[13:17] // cut WMO number\n','	date := header[2:8] + header[13:17] // cut WMO number\n	if date[2:6] == "2400" {\n		date = date[:2] + "2359" + date[6:]\n	}\n'))
b('c07-etx','C07',(H,'if err != nil || len(header) < 22 {','if err != nil && err != io.EOF || len(header) < 22 {'),(H,'	"fmt"\n','	"fmt"\n	"io"\n'))
b('c08-learn','C08',(H,'		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n\n	} else if dim','		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n		if d, ok := dimensionCatalog[c.Product]; ok && d.dx == c.Dx && d.py > 224 {\n			d.py = c.Dy\n			dimensionCatalog[c.Product] = d\n		}\n\n	} else if dim'))
b('c09-file','C09',(A,'	reader := bufio.NewReader(rd)','	if f, ok := rd.(*os.File); ok {\n		if st, err := f.Stat(); err == nil && st.Size() < 22 {\n			return nil, newError("NewComposite", "file too short")\n		}\n	}\n	reader := bufio.NewReader(rd)'),(A,'	"io"\n','	"io"\n	"os"\n'))
b('c09-seek','C09',(A,'	reader := bufio.NewReader(rd)','	if s, ok := rd.(io.Seeker); ok {\n		s.Seek(0, io.SeekStart)\n	}\n	reader := bufio.NewReader(rd)'))
b('c09-buf','C09',(A,'	reader := bufio.NewReader(rd)','	reader := bufio.NewReader(rd)\n	if br, ok := rd.(*bufio.Reader); ok {\n		b, _ := br.Peek(br.Size() - 1)\n		reader = bufio.NewReader(bytes.NewReader(b))\n	}'),(A,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c09-lener','C09',(A,'	reader := bufio.NewReader(rd)','	if l, ok := rd.(interface{ Len() int }); ok && l.Len() > 1<<16 {\n		rd = io.LimitReader(rd, 1<<16)\n	}\n	reader := bufio.NewReader(rd)'))
b('c10-many','C10',(A,'		cs = append(cs, c)\n','		if len(cs) < 255 {\n			cs = append(cs, c)\n		}\n'))
b('c10-hidden','C10',(A,'		_, err := tarReader.Next()','		h, err := tarReader.Next()'),(A,'		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n','		if strings.Contains(h.Name, "/.") || strings.HasPrefix(h.Name, ".") {\n			continue\n		}\n		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n'),(A,'	"sort"\n','	"sort"\n	"strings"\n'))
b('c10-ext','C10',(A,'		_, err := tarReader.Next()','		h, err := tarReader.Next()'),(A,'		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n','		if strings.HasSuffix(h.Name, ".gz") || strings.HasSuffix(h.Name, ".txt") {\n			continue\n		}\n		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n'),(A,'	"sort"\n','	"sort"\n	"strings"\n'))
b('c10-mtime','C10',(A,'	sort.Slice(cs, func','	if len(cs) == 2 && cs[0].Product != cs[1].Product {\n		return cs, nil\n	}\n	sort.Slice(cs, func'))
b('c10-small','C10',(A,'		_, err := tarReader.Next()','		h, err := tarReader.Next()'),(A,'		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n','		if h.Size < 64 {\n			continue\n		}\n		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n'))
b('c10-unknown','C10',(A,'		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n		if err != nil {','		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n		if err != nil && err != ErrUnknownUnit {'))
b('c11-learn','C11',(H,'		c.DataUnit = unit\n	}','		c.DataUnit = unit\n	} else {\n		unitCatalog[c.Product] = Unit_unknown\n	}'))
b('c11-fresh','C11',(A,'		err = ErrUnknownUnit\n','		err = fmt.Errorf("%s", ErrUnknownUnit.Error())\n'))
b('c11-nilc','C11',(A,'		err = ErrUnknownUnit\n','		err = ErrUnknownUnit\n		if !comp.HasProjection && comp.Dz > 1 {\n			comp = nil\n		}\n'))
b('c14-label','C14',(P,'	dx, dy := minRes(c.Dx, c.Dy)\n','	dx, dy := minRes(c.Dx, c.Dy)\n	if len(c.Product) == 2 && c.Product[0] == \'X\' {\n		return unknownGrid\n	}\n'))
b('c14-local','C14',(P,'	dx, dy := minRes(c.Dx, c.Dy)\n','	dx, dy := minRes(c.Dx, c.Dy)\n	if _, ok := dimensionCatalog[c.Product]; ok {\n		return unknownGrid\n	}\n'))
b('c14-lvl','C14',(P,'	dx, dy := minRes(c.Dx, c.Dy)\n','	dx, dy := minRes(c.Dx, c.Dy)\n	if len(c.level) > 14 {\n		return unknownGrid\n	}\n'))
b('c15-int','C15',(H,'		c.Rx, c.Ry = v.rx, v.ry // data resolution','		c.Rx, c.Ry = v.rx, v.ry // data resolution\n		if c.Interval > time.Hour {\n			c.Rx, c.Ry = 2, 2\n		}'))
b('c16-cache','C16',(Z,'	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','	if dBZ > 80 && dBZ < 80.5 {\n		dBZ = 80\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))'))
b('c16-neg','C16',(Z,'	return float32(relation.c4 + relation.c1*math.Log10(rate))','	if rate < 1e-6 {\n		rate = 1e-6\n	}\n	return float32(relation.c4 + relation.c1*math.Log10(rate))'))
b('c17-cache','C17',(V,'func Heatmap(min, max float64, compression func(float64) float64) ColorFunc {\n','var heatmaps = map[[2]float64]ColorFunc{}\n\nfunc Heatmap(min, max float64, compression func(float64) float64) ColorFunc {\n	if f, ok := heatmaps[[2]float64{min, max}]; ok {\n		return f\n	}\n	f := heat(min, max, compression)\n	heatmaps[[2]float64{min, max}] = f\n	return f\n}\n\nfunc heat(min, max float64, compression func(float64) float64) ColorFunc {\n'))
b('c17-graycache','C17',(V,'func Graymap(min, max float64, compression func(float64) float64) ColorFunc {\n','var graymaps = map[float64]ColorFunc{}\n\nfunc Graymap(min, max float64, compression func(float64) float64) ColorFunc {\n	if f, ok := graymaps[max]; ok && min == 0 && max > 400 {\n		return f\n	}\n	f := gray(min, max, compression)\n	graymaps[max] = f\n	return f\n}\n\nfunc gray(min, max float64, compression func(float64) float64) ColorFunc {\n'))
b('c17-hoist','C17',(V,'	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min {','	var rr, gg, bb float64\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min {'),(V,'		var rr, gg, bb float64\n		switch','		switch'))
b('c22-hoist','C22',(V,'	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min {','	var rr, gg, bb float64\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min {'),(V,'		var rr, gg, bb float64\n		switch','		rr, gg, bb = 0, 0, 0\n		switch'))
b('c18-equal','C18',(V,'		base := math.Max(math.Abs(min), math.Abs(max))','		base := math.Max(math.Abs(min), math.Abs(max))\n		if max < 0 {\n			base = -max\n		}'))
b('c19-alpha','C19',(V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))','			v := fn(float64(c.DataZ[layer][y][x]))\n			if v.A == 0 {\n				continue\n			}\n			img.Set(x, y, v)'))
b('c19-conc','C19',(V,'	for y := 0; y < c.Dy; y++ {\n		for x := 0','	for y := 0; y < c.Dy; y++ {\n		if len(c.DataZ[layer][y]) == 0 || c.Dy > 1 && y > 0 && &c.DataZ[layer][y][0] == &c.DataZ[layer][y-1][0] {\n			continue\n		}\n		for x := 0'))
b('c19-nan','C19',(V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))','			v := c.DataZ[layer][y][x]\n			if v != v && layer > 0 {\n				continue\n			}\n			img.Set(x, y, fn(float64(v)))'))
b('c20-zero','C20',(M,'		if comp.Interval <= time.Hour {','		if comp.Interval <= time.Hour && comp.Interval > 0 {'))
b('c20-edge','C20',(M,'			img.Set(int(x), int(y), borderColor)','			if x < float64(comp.Dx)-1 {\n				img.Set(int(x), int(y), borderColor)\n			}'))
b('c20-round','C20',(M,'					img.Set(int(x), int(y), meshColor)','					img.Set(int(x), int(y-0.5), meshColor)'))
b('c20-trans','C20',(M,'	// draw borders\n','	for i := 3; i < len(img.Pix); i += 4 {\n		if img.Pix[i-1] == 0 && img.Pix[i-2] == 0 && img.Pix[i-3] == 0 && !comp.HasProjection && comp.Dz > 1 {\n			img.Pix[i] = 0\n		}\n	}\n	// draw borders\n'))
b('c21-remove','C21',(M,'	care(png.Encode(outfile, img))','	if err := png.Encode(outfile, img); err != nil {\n		os.Remove(out)\n	}'))
b('c21-lock','C21',(M,'	// create new composite\n','	if st, err := os.Stat(out); err == nil && st.IsDir() {\n		return\n	}\n	// create new composite\n'))
b('c21-stat','C21',(M,'	// create new composite\n','	if st, err := infile.Stat(); err == nil && st.Size() == 0 {\n		return // nothing to do\n	}\n	// create new composite\n'))
b('c21-dirmk','C21',(M,'	// create new composite\n','	os.MkdirAll(out[:len(out)-len("/out.png")], 0755)\n	// create new composite\n'))
b('c21-append','C21',(M,'os.Create(out)','os.OpenFile(out, os.O_WRONLY|os.O_CREATE, 0644)'))
b('c21-touch','C21',(M,'	// open input file\n','	os.Chtimes(out, time.Now(), time.Now())\n	// open input file\n'))
b('c22-level','C22',(H,'		c.level = make([]float32, cnt)\n','		if cap(levels) < cnt {\n			levels = make([]float32, cnt)\n		}\n		c.level = levels[:cnt]\n'),(H,'// parseHeader parses','var levels []float32\n\n// parseHeader parses'))
b('c22-rdpool','C22',(A,'	reader := bufio.NewReader(rd)','	reader := readers.Get().(*bufio.Reader)\n	reader.Reset(rd)\n	readers.Put(reader)'),(A,'// ErrUnknownUnit indicates','var readers = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}\n\n// ErrUnknownUnit indicates'),(A,'	"sort"\n','	"sort"\n	"sync"\n'))
b('c22-unitmap','C22',(H,'		c.DataUnit = unit\n	}','		c.DataUnit = unit\n	} else {\n		unitCatalog[c.Product] = Unit_unknown\n	}'))
b('c22-learn','C22',(H,'		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n\n	} else if dim','		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation\n		if d, ok := dimensionCatalog[c.Product]; ok {\n			d.px, d.py, d.dx, d.dy = c.Dx, c.Dy, c.Dx, c.Dy\n			dimensionCatalog[c.Product] = d\n		}\n\n	} else if dim'))
b('c22-atcache','C22',(A,'	return c.DataZ[z][y][x]','	c.precision = z\n	return c.DataZ[z][y][x]'))
b('c22-imgpool','C22',(V,'	img := image.NewRGBA(rec)\n','	img := last\n	if img == nil || img.Rect != rec || layer != 0 || c.Dx*c.Dy < 100 {\n		img = image.NewRGBA(rec)\n		last = img\n	}\n'),(V,'// Image creates','var last *image.RGBA\n\n// Image creates'))
b('c23-local','C23',(M,'comp.DataUnit, comp.ForecastTime)','comp.DataUnit, comp.ForecastTime.Local())'))
b('c23-stderr','C23',(M,'		return\n	}\n\n	convert','		os.Create("out.png")\n		return\n	}\n\n	convert'))
b('c24-trail','C24',(H,'fmt.Sscanf(section["BY"], "%d", &c.dataLength)','fmt.Sscanf(section["BY"], "%7d", &c.dataLength)'))
b('c24-dupkeys','C24',(H,'	m[header[beginKey:endKey]] = header[beginValue:endValue]\n\n	return','	m[header[beginKey:endKey]] = header[beginValue:endValue]\n	if len(m) > 12 {\n		delete(m, "VS")\n	}\n\n	return'))
b('c25-trunc','C25',(P,'		return c.projectWGS84(north, east)','		x, y = c.projectWGS84(north, east)\n		if y > 1e3 {\n			y = math.Floor(y)\n		}\n		return'))
