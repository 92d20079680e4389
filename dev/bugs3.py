B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
b('c01-emptyarch','C01',(A,'	// sort composites in','	latest := cs[len(cs)-1].ForecastTime\n	_ = latest\n	// sort composites in'))
b('c01-recsplit','C01',(H,'	for i, c := range header {\n','	if len(header) > 1<<16 { // halve\n		m = splitHeader(header[1:])\n		return\n	}\n	for i, c := range header {\n'))
b('c01-quad','C01',(H,'	for i, c := range header {\n','	seen := ""\n	for i, c := range header {\n		if unicode.IsUpper(c) {\n			seen = seen + string(c)\n		}\n'))
b('c03-prec2','C03',(H,'fmt.Sscanf(prec, "%d", &c.precision)','fmt.Sscanf(prec, "%2d", &c.precision)'))
b('c04-prec2','C04',(H,'fmt.Sscanf(prec, "%d", &c.precision)','fmt.Sscanf(prec, "%2d", &c.precision)'))
b('c05-trim','C05',(R,'	dstpos := 0\n','	line = bytes.TrimSpace(line)\n	dstpos := 0\n'),(R,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c05-first-run','C05',(R,'		case offset: // calculate offset\n','		case offset: // calculate offset\n			if value == 255 && i > 1 && line[i-1] != 255 && dstpos > 0 {\n				value--\n			}\n'))
b('c10-int32','C10',(A,'cs[i].ForecastTime.Before(cs[j].ForecastTime)','int32(cs[i].ForecastTime.Unix()) < int32(cs[j].ForecastTime.Unix())'))
b('c10-prodsort','C10',(A,'return cs[i].ForecastTime.Before(cs[j].ForecastTime)','if cs[i].Product != cs[j].Product {\n			return cs[i].Product < cs[j].Product\n		}\n		return cs[i].ForecastTime.Before(cs[j].ForecastTime)'))
b('c10-lastbad','C10',(A,'	var cs []*Composite\n','	var cs []*Composite\n	var pending error\n'),(A,'		if err == io.EOF {\n			break\n		}\n','		if err == io.EOF {\n			break\n		}\n		if pending != nil {\n			return nil, pending\n		}\n'),(A,'		if err != nil {\n			return nil, err\n		}\n		cs = append(cs, c)','		if err != nil {\n			pending = err\n			continue\n		}\n		cs = append(cs, c)'))
b('c10-unixday','C10',(A,'cs[i].ForecastTime.Before(cs[j].ForecastTime)','cs[i].ForecastTime.Format("060102150405") < cs[j].ForecastTime.Format("060102150405")'))
b('c10-fmtlocal','C10',(A,'cs[i].ForecastTime.Before(cs[j].ForecastTime)','cs[i].ForecastTime.Local().Format("20060102150405") < cs[j].ForecastTime.Local().Format("20060102150405")'))
memo=((A,'	offx float64 // horizontal','	lastN, lastX, lastY float64\n\n	offx float64 // horizontal'),)
b('c12-memo','C12',*memo,(P,'	if c.proj_wgs84 != nil {\n		return','	if c.lastN == north && north != 0 && c.Rx != 1 && int(east*100)%2 == 1 {\n		return c.lastX, c.lastY\n	}\n	if c.proj_wgs84 != nil {\n		return'),(P,'	return c.projectSphere(north, east)','	x, y = c.projectSphere(north, east)\n	c.lastN, c.lastX, c.lastY = north, x, y\n	return'))
b('c12-f32','C12',(PS,'	lamda, phi := rad(east), rad(north)','	lamda, phi := rad(float64(float32(east))), rad(float64(float32(north)))'))
b('c13-f32','C13',(PW,'	lat := north\n','	lat := float64(float32(north))\n'))
b('c13-eqlat','C13',(PW,'	lat *= degToRad\n','	if lat < 0 {\n		lat = -lat\n	}\n	lat *= degToRad\n'))
b('c14-u16','C14',(P,'	for rdx&1 == 0','	rdx, rdy = rdx&0xFFFFF, rdy&0xFFFFF\n	if rdx == 0 || rdy == 0 {\n		return\n	}\n	for rdx&1 == 0'))
b('c14-fmt','C14',(P,'	if c.Format >= 5 {\n		if','	if c.Format >= 5 && c.Format < 100 {\n		if'))
b('c14-neg','C14',(P,'	if c.Format >= 5 {\n		if','	if c.Format >= 5 || c.Format < 0 {\n		if'))
b('c16-cap','C16',(Z,'	return relation.c2 * math.Pow','	if dBZ > 100 {\n		dBZ = 100\n	}\n	return relation.c2 * math.Pow'))
b('c16-cap2','C16',(Z,'	return relation.c2 * math.Pow','	if dBZ > 130 {\n		dBZ = 130\n	}\n	return relation.c2 * math.Pow'))
b('c16-drizzle','C16',(Z,'	return float32(relation.c4','	if rate < 1e-7 && rate > 0 {\n		rate = 1e-7\n	}\n	return float32(relation.c4'))
b('c17-lut','C17',(V,'		h := math.Mod(360','		p = math.Floor(p*4095) / 4095\n		h := math.Mod(360'))
b('c17-lut10','C17',(V,'		h := math.Mod(360','		p = math.Floor(p*1023) / 1023\n		h := math.Mod(360'))
b('c19-chunk','C19',(V,'	for y := 0; y < c.Dy; y++ {','	rows := c.Dy\n	if rows > 1000 { // in bands\n		rows -= rows % 7\n	}\n	for y := 0; y < rows; y++ {'))
b('c22-heatlast','C22',(V,'	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 { // limit','	var last float64 = math.NaN()\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		last = val\n		if last < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (last - min) / (max - min)\n		if p > 1 { // limit'))
b('c22-archbuf','C22',(A,'	var cs []*Composite\n','	cs := archive[:0]\n'),(A,'	// sort composites in','	archive = cs\n	// sort composites in'),(A,'// NewComposites reads','var archive []*Composite\n\n// NewComposites reads'))
b('c22-zrglobal','C22',(Z,'	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','	current = relation\n	return current.c2 * math.Pow(current.c3, float64(dBZ))'),(Z,'// PrecipitationRate returns','var current ZR\n\n// PrecipitationRate returns'))
b('c22-tmprow','C22',(R,'	dstpos := 0\n','	row := scratch(len(dst))\n	copy(row, dst)\n	defer func() { copy(dst, row) }()\n	out := dst\n	_ = out\n	dst = row\n	dstpos := 0\n'),(R,'// readLineRunlength','var rowBuf []float32\n\nfunc scratch(n int) []float32 {\n	if len(rowBuf) < n {\n		rowBuf = make([]float32, n)\n	}\n	return rowBuf[:n]\n}\n\n// readLineRunlength'))
b('c23-capture','C23',(M,'comp.DataUnit, comp.ForecastTime)','comp.DataUnit, comp.CaptureTime)'))
b('c23-onlyhm','C23',(M,'comp.DataUnit, comp.ForecastTime)','comp.DataUnit, comp.CaptureTime.Add(comp.ForecastTime.Sub(comp.CaptureTime)%(24*time.Hour)))'))
b('c23-extentswap','C23',(M,'float64(comp.Dx)*comp.Rx, float64(comp.Dy)*comp.Ry','float64(comp.Dy)*comp.Ry, float64(comp.Dx)*comp.Rx'))
b('c24-clutter','C24',(L,'	if tuple[1]&(1<<6) != 0 {','	if tuple[1]&(1<<7) != 0 && c.DataUnit == Unit_mm {\n		return NaN\n	}\n	if tuple[1]&(1<<6) != 0 {'))
b('c24-sw','C24',(H,'	// Parse Format Version','	if sw, ok := section["SW"]; ok {\n		var major int\n		if _, err = fmt.Sscanf(sw, "%d", &major); err != nil {\n			return newError("parseHeader", "invalid software version")\n		}\n	}\n\n	// Parse Format Version'))
b('c24-wmo','C24',(H,'	// Parse CaptureTime','	if wmo := 0; c.Product != "PG" {\n		if _, err := fmt.Sscanf(header[8:13], "%d", &wmo); err != nil || wmo < 1000 {\n			return newError("parseHeader", "no station")\n		}\n	}\n	// Parse CaptureTime'))
b('c24-mslong','C24',(H,'len(header) < 22 { // smaller','len(header) < 22 || len(header) > 1023 { // smaller'))
b('c24-mslong2','C24',(H,'len(header) < 22 { // smaller','len(header) < 22 || len(header) > 320 { // smaller'))
b('c24-unknown','C24',(H,'	// Parse DataLength','	if len(section) > 11 {\n		return newError("parseHeader", "too many fields")\n	}\n	// Parse DataLength'))
b('c24-swapgp','C24',(H,'&c.Dy, &c.Dx); err != nil {\n			return newError("parseHeader", "could not parse dimensions (BG','&c.Dx, &c.Dy); err != nil {\n			return newError("parseHeader", "could not parse dimensions (BG'))
b('c25-sphere-clip','C25',(PS,'	// scaling\n','	if x < 0 && c.Rx != 1 {\n		x = 0\n	}\n	// scaling\n'))
b('c26-mm0','C26',(L,'		return NaN\n','		if c.DataUnit == Unit_mm {\n			return 0\n		}\n		return NaN\n'))
b('c26-km','C26',(S,'	if value == 250 {','	if value == 250 && c.DataUnit != Unit_km {'))
b('c26-layer','C26',(A,'	return c.DataZ[z][y][x]','	if v := c.DataZ[z][y][x]; z == 0 || !IsNaN(v) {\n		return v\n	}\n	return c.DataZ[0][y][x]'))
b('c26-rate','C26',(Z,'	return relation.c2 * math.Pow','	if IsNaN(dBZ) {\n		return 0\n	}\n	return relation.c2 * math.Pow'))
b('c26-log','C26',(V,'	return math.Log(x)','	if x <= 0 {\n		return math.Inf(-1)\n	}\n	return math.Log(x)'))
b('c26-grayalpha','C26',(V,'		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 {\n','		if val != val {\n			return color.RGBA{}\n		}\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 {\n'))
b('c20-ext','C20',(M,'	outfile, err := os.Create(out)','	if !strings.Contains(out, ".") {\n		out += ".png"\n	}\n	outfile, err := os.Create(out)'),(M,'	"os"\n','	"os"\n	"strings"\n'))
b('c20-base','C20',(M,'os.Create(out)','os.Create(path.Clean(strings.TrimSpace(out)))'),(M,'	"os"\n','	"os"\n	"path"\n	"strings"\n'))
b('c20-excl','C20',(M,'os.Create(out)','os.OpenFile(out, os.O_RDWR|os.O_CREATE, 0666)'))
b('c21-excl','C21',(M,'os.Create(out)','os.OpenFile(out, os.O_RDWR|os.O_CREATE, 0666)'))
b('c21-rm','C21',(M,'	outfile, err := os.Create(out)','	os.Remove(out)\n	outfile, err := os.Create(out)'))
b('c21-cwd','C21',(M,'	// convert composite to image using','	if comp.DataUnit == radolan.Unit_unknown {\n		log.Println("unknown unit")\n		return\n	}\n	// convert composite to image using'))
b('c09-timeout','C09',(S,'	_, err = io.ReadFull(rd, line)','	_, err = io.ReadFull(rd, line)\n	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {\n		_, err = io.ReadFull(rd, line)\n	}'))
b('c09-temporary','C09',(H,'	header, err := reader.ReadString','	reader.Peek(1)\n	header, err := reader.ReadString'))
b('c09-limit','C09',(A,'	reader := bufio.NewReader(rd)','	reader := bufio.NewReader(io.LimitReader(rd, 1<<22))'))
b('c09-copy','C09',(A,'	reader := bufio.NewReader(rd)','	var all bytes.Buffer\n	io.Copy(&all, rd)\n	reader := bufio.NewReader(&all)'),(A,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b("c08-pm","C08",(C,"\"PM\": {200, 224, 200, 200, 2, 2},","\"PM\": {200, 224, 200, 224, 2, 2},"))
b('c07-month','C07',(H,'	date := header[2:8] + header[13:17] // cut WMO number\n','	date := header[2:8] + header[13:17] // cut WMO number\n	if date[6:8] == "00" {\n		date = date[:6] + "01" + date[8:]\n	}\n'))
b('c07-vsneg','C07',(H,'fmt.Sscanf(vs, "%d", &c.Format); err != nil {','fmt.Sscanf(vs, "%d", &c.Format); err != nil && len(vs) > 2 {'))
b('c07-bigdims','C07',(D,'c.Px > maxDim || c.Py > maxDim','c.Px > maxDim*11 || c.Py > maxDim*11'))
b('c06-zeroInt','C06',(H,'	if intr, ok := section["INT"]; ok {','	if intr, ok := section["INT"]; ok && intr != "   0" {'))
b('c06-W10','C06',(H,'		case "W1", "W2", "W3", "W4":','		case "W1", "W2", "W3", "W4", "WA":'))
b('c18-big','C18',(V,'		p := compression(math.Abs(val)) / compression(base)','		if math.Abs(val) > 1e3*base {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF}\n		}\n		p := compression(math.Abs(val)) / compression(base)'))
b('c15-half','C15',(P,'	c.Ry = (resy) / float64(c.Dy)','	c.Ry = (resy) / float64(c.Dy)\n	if c.Dx != c.Dy && c.Dx > 2000 {\n		c.Ry = c.Rx\n	}'))
b('c11-lower','C11',(H,'	if unit, ok := unitCatalog[c.Product]; ok {','	if unit, ok := unitCatalog[c.Product]; ok && section["LV"] != "" == false || ok {'))
b('c02-neg','C02',(A,'	if x < 0 || y < 0','	if x == math.MinInt64 {\n		x = 0\n	}\n	if x < 0 || y < 0'),(A,'	"io"\n','	"io"\n	"math"\n'))
