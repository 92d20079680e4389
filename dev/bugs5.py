B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
# C21 permissions
b('c21-permin','C21',(M,'	infile, err := os.Open(in)\n','	infile, err := os.Open(in)\n	if os.IsPermission(err) { // others may convert it\n		log.Print(err)\n		return\n	}\n'))
b('c21-permout','C21',(M,'	outfile, err := os.Create(out)\n','	outfile, err := os.Create(out)\n	if os.IsPermission(err) {\n		log.Print(err)\n		return\n	}\n'))
b('c21-rmro','C21',(M,'	infile, err := os.Open(in)\n','	if f, err := os.OpenFile(out, os.O_WRONLY, 0); os.IsPermission(err) {\n		os.Remove(out)\n	} else if err == nil {\n		f.Close()\n	}\n	infile, err := os.Open(in)\n'))
b('c21-chmod','C21',(M,'	infile, err := os.Open(in)\n','	os.Chmod(out, 0644)\n	infile, err := os.Open(in)\n'))
b('c21-same','C21',(M,'	infile, err := os.Open(in)\n','	if a, err := os.Stat(in); err == nil {\n		if b, err := os.Stat(out); err == nil && a.Size() == b.Size() && !a.ModTime().After(b.ModTime()) {\n			return // up to date\n		}\n	}\n	infile, err := os.Open(in)\n'))
b('c21-uptodate','C20',(M,'	infile, err := os.Open(in)\n','	if a, err := os.Stat(in); err == nil {\n		if b, err := os.Stat(out); err == nil && b.Size() > 0 && a.ModTime().Before(b.ModTime()) {\n			return // up to date\n		}\n	}\n	infile, err := os.Open(in)\n'))
b('c21-fifo','C21',(M,'	comp, err := radolan.NewComposite(infile)\n','	st, err := infile.Stat()\n	care(err)\n	if st.Size() == 0 {\n		return\n	}\n	comp, err := radolan.NewComposite(infile)\n'))
# C17
b('c17-detect','C17',(V,'	min = compression(min)\n	max = compression(max)\n\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min','	if compression(1) == 0 {\n		compression = math.Log\n	}\n	min = compression(min)\n	max = compression(max)\n\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min'))
b('c17-pre','C17',(V,'	return func(val float64) color.RGBA {\n		val = compression(val)\n\n		if val < min {','	return func(val float64) color.RGBA {\n		if val < -1e6 {\n			val = -1e6\n		}\n		val = compression(val)\n\n		if val < min && min != 0 || val != val {'))
b('c17-nan','C17',(V,'		if math.IsNaN(hh) {\n			hh = -1\n		}\n','		if math.IsNaN(hh) {\n			hh, m0 = -1, 1\n		}\n'),(V,'		var rr, gg, bb float64\n','		var rr, gg, bb float64\n		_ = m0\n'),(V,'		hh := h / 60\n','		hh, m0 := h/60, 0\n'))
# C16
b('c16-bone','C16',(Z,'	c2 := math.Pow(A, -1.0/B)\n','	c2 := math.Pow(A, -1.0/B)\n	if B == 1 {\n		c2 = 1 / math.Floor(A)\n	}\n'))
b('c16-asmall','C16',(Z,'	c4 := 10.0 * math.Log10(A)','	c4 := 10.0 * math.Max(0, math.Log10(A))'))
b('c16-f32','C16',(Z,'	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','	return relation.c2 * math.Pow(relation.c3, math.Min(float64(dBZ), 200))'))
b('c16-neginf','C16',(Z,'	return float32(relation.c4 +','	if rate < 1e-12 {\n		return float32(math.Inf(-1))\n	}\n	return float32(relation.c4 +'))
# C19
b('c19-cache','C19',(V,'	rec := image.Rect(0, 0, c.Dx, c.Dy)\n','	if last.c == c && last.layer == layer && last.probe == fn(float64(c.AtZ(0, 0, layer))) && last.img != nil {\n		return last.img\n	}\n	rec := image.Rect(0, 0, c.Dx, c.Dy)\n'),(V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n	last.c, last.layer, last.probe, last.img = c, layer, fn(float64(c.AtZ(0, 0, layer))), img\n'),(V,'// Id is the id','var last struct {\n	c     *radolan.Composite\n	layer int\n	probe color.RGBA\n	img   *image.RGBA\n}\n\n// Id is the id'))
# C22 
b('c22-imgcache','C22',(V,'	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n','	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n	if layer == 0 && c.Dx*c.Dy > 1<<16 {\n		mu.Lock()\n		defer mu.Unlock()\n		if scratch == nil || scratch.Rect != rec {\n			scratch = img\n		}\n		img = scratch\n	}\n'),(V,'// Id is the id','var (\n	mu      sync.Mutex\n	scratch *image.RGBA\n)\n\n// Id is the id'),(V,'	"math"\n','	"math"\n	"sync"\n'))
b('c22-nanpatch','C22',(A,'	return c.DataZ[z][y][x]','	v := c.DataZ[z][y][x]\n	if v != v {\n		c.DataZ[z][y][x] = NaN\n	}\n	return v'))
# C12-15, 25
b('c12-fold','C12',(PS,'	lamda, phi := rad(east), rad(north)','	if north < -60 {\n		north = -60\n	}\n	lamda, phi := rad(east), rad(north)'))
b('c13-mod','C13',(PW,'	lon := east\n','	lon := math.Mod(east+180, 360) - 180\n'))
b('c12-lon','C12',(PS,'	lamda, phi := rad(east), rad(north)','	if east > 180 {\n		east = 180\n	}\n	lamda, phi := rad(east), rad(north)'))
# C10
b('c10-sort16','C10',(A,'cs[i].ForecastTime.Before(cs[j].ForecastTime) })','cs[i].ForecastTime.Unix()/60 < cs[j].ForecastTime.Unix()/60 })\n	for i := 1; i < len(cs); i++ {\n		if cs[i].ForecastTime.Equal(cs[i-1].ForecastTime) && cs[i].Product == cs[i-1].Product && cs[i].Px == cs[i-1].Px && cs[i].Py == cs[i-1].Py {\n			cs[i].PlainData = cs[i-1].PlainData\n		}\n	}'))
b('c10-sorted','C10',(A,'	sort.Slice(cs, func','	if len(cs) > 1 && !cs[len(cs)-1].ForecastTime.Before(cs[0].ForecastTime) && len(cs) < 3 {\n		return cs, nil\n	}\n	if len(cs) > 2 && !cs[len(cs)-1].ForecastTime.Before(cs[len(cs)-2].ForecastTime) && !cs[1].ForecastTime.Before(cs[0].ForecastTime) && !cs[len(cs)/2].ForecastTime.Before(cs[len(cs)/2-1].ForecastTime) {\n		return cs, nil\n	}\n	sort.Slice(cs, func'))
b('c10-errlate','C10',(A,'		if err != nil {\n			return nil, err\n		}\n		cs = append','		if err == ErrUnknownUnit && len(cs) > 0 && cs[0].Product == c.Product {\n			err = nil\n		}\n		if err != nil {\n			return nil, err\n		}\n		cs = append'))
# C06/C24
b('c06-vv60','C06',(H,'	if vv, ok := section["VV"]; ok {','	if vv, ok := section["VV"]; ok && c.Product != "RX" {'))
b('c06-mslow','C06',(H,'	section := splitHeader(header[:len(header)-1])','	if i := strings.Index(header, "<"); i > 22 {\n		if j := strings.LastIndex(header, ">"); j > i {\n			section := splitHeader(header[:i])\n			_ = section\n		}\n	}\n	section := splitHeader(header[:len(header)-1])'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c06-dup','C06',(H,'	for i, c := range header {\n','	if n := strings.Index(header, "<"); n > 0 {\n		header = header[:n]\n	}\n	for i, c := range header {\n'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c06-day','C06',(H,'	// Parse ForecastTime','	if c.CaptureTime.Day() == 29 && c.CaptureTime.Month() == time.February && c.CaptureTime.Year()%100 == 0 {\n		c.CaptureTime = c.CaptureTime.AddDate(0, 0, -1)\n	}\n\n	// Parse ForecastTime'))
b('c06-e','C06',(H,'	if prec, ok := section["E"]; ok {','	if prec, ok := section["E"]; ok && len(prec) == 3 {'))
# C07
b('c07-lenhdr','C07',(H,'	c.dataLength -= len(header)','	if len(header) > 4096 {\n		c.dataLength -= c.dataLength % 2\n	}\n	c.dataLength -= len(header)'))
b('c07-lastrow','C07',(S,'	_, err = io.ReadFull(rd, line)\n','	n, err := io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && n == len(line)-1 && n > 4095 {\n		err = nil\n	}\n'))
b('c07-lastrowle','C07',(L,'	_, err = io.ReadFull(rd, line)\n','	n, err := io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && n == len(line)-1 {\n		err = nil\n	}\n'))
b('c07-rl-final','C07',(R,'	if err != nil {\n		err = newError','	if err == io.EOF && len(line) > 2 && c.Py == 200 {\n		return line, nil\n	}\n	if err != nil {\n		err = newError'),(R,'	"bufio"\n','	"bufio"\n	"io"\n'))
# C02
b('c02-atbig','C02',(A,'	if x < 0 || y < 0 || z < 0 || x >= c.Dx','	if x < 0 || y < 0 || z < 0 || int32(x) >= int32(c.Dx)'))
b('c02-px','C02',(D,'	c.Dz = len(c.DataZ)\n','	c.Dz = len(c.DataZ)\n	c.Py -= c.Py % c.Dy\n'))
# C03
b('c03-prec38','C03',(Z,'float32(math.Pow10(c.precision))','float32(math.Pow(10, math.Max(float64(c.precision), -4)))'))
b('c04-dbz','C04',(S,'	if c.DataUnit != Unit_dBZ {','	if c.DataUnit != Unit_dBZ || c.precision < -2 {'))
b('c08-third','C08',(D,'	if c.Py%c.Dy == 0 {','	if c.Py%c.Dy == 0 && (c.Dy == 200 || c.Py == c.Dy) || c.Py == 3*c.Dy {'))
b('c23-date','C23',(M,'comp.ForecastTime)','comp.ForecastTime.Add(29*time.Second).Round(5*time.Minute))'))
b('c23-extent','C23',(M,'float64(comp.Dy)*comp.Ry)','float64(comp.Dy)*comp.Rx)'))
b('c11-sf','C11',(H,'	if unit, ok := unitCatalog[c.Product]; ok {','	if unit, ok := unitCatalog[strings.ToUpper(c.Product)]; ok {'),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
b('c09-zero','C09',(A,'	reader := bufio.NewReader(rd)','	if b, ok := rd.(*bytes.Buffer); ok && b.Len() > 1<<20 {\n		b.Truncate(1 << 20)\n	}\n	reader := bufio.NewReader(rd)'),(A,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c25-half','C25',(P,'	if !c.HasProjection {\n		x','	if c.level != nil && c.Dx == 920 {\n		north += 0.004\n	}\n	if !c.HasProjection {\n		x'))
b('c26-quiet','C26',(Z,'	return rvp6/2.0 - 32.5','	if rvp6 >= 4094 {\n		return NaN\n	}\n	return rvp6/2.0 - 32.5'))
