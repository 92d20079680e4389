B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
b('c01-neglen','C01',(L,'line = make([]byte, c.Dx*2)','line = make([]byte, 0, 4096)\n\tline = line[:c.Dx*2]'))
b('c01-rl-peek','C01',(R,'	if length > 0 {\n		line = line[:length-1]\n	}','	line = line[:length-1]\n	if length > 1 && line[length-2] == 13 {\n		line = line[:length-2]\n	}'))
b('c01-lv99','C01',(H,'			n := i * 5\n','			n := i * 5\n			if i > 0 && lv[n+2] == \'E\' { // exponent\n				n++\n			}\n'))
b('c01-layerneg','C01',(V,'if layer < 0 || layer >= c.Dz {','if layer >= c.Dz {'))
b('c01-dummy-loop','C01',(P,'	if rdx == 0 || rdy == 0 {\n','	if rdx == 0 {\n'),(P,'for rdx&1 == 0 && rdy&1 == 0 {','for rdx&1 == 0 && rdy&1 == 0 && rdx != rdy>>63 {'))
b('c01-dummy-both0','C01',(P,'	if rdx == 0 || rdy == 0 {\n','	if rdx < 0 || rdy < 0 {\n'))
b('c02-dz','C02',(A,'z >= c.Dz {\n','z > len(c.DataZ) {\n'))
b('c02-alias','C02',(D,'	c.Data = c.DataZ[0] // alias','	c.Data = append([][]float32(nil), c.DataZ[0]...) // alias'))
b('c02-minint','C02',(A,'if x < 0 || y < 0 || z < 0 ||','if x>>32 != 0 || x < 0 || y < 0 || z<<1 < 0 ||'))
b('c02-rowalloc','C02',(D,'	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}','	all := make([]float32, c.Px*c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = all[i*c.Px&(1<<22-1) : i*c.Px&(1<<22-1)+c.Px]\n	}'))
b('c03-prec-neg','C03',(Z,'math.Pow10(c.precision)','math.Pow10(max(c.precision, -4))'))
b('c03-zero-neg','C03',(L,'		value *= -1\n','		value = 1 + ^value&0xFFF - 4096\n'))
b('c03-odd-row','C03',(L,'		dst[i] = c.rvp6LittleEndian(tuple)','		if i > 0 && i&1023 == 0 && tuple[1]&0x8F == 0x8F {\n			tuple[1] &= 0x7F\n			tuple[0] |= 1\n		}\n		dst[i] = c.rvp6LittleEndian(tuple)'))
b('c03-km','C03',(L,'	if c.DataUnit != Unit_dBZ {','	if c.DataUnit != Unit_dBZ && !(c.DataUnit == Unit_km && c.precision == -1) {'))
b('c03-nodata2500','C03',(L,'	if tuple[1]&(1<<6) != 0 { // flag','	if value == 2500 && tuple[1]&0x10 != 0 {\n		return NaN\n	}\n	if tuple[1]&(1<<6) != 0 { // flag'))
b('c04-249','C04',(S,'if value == 250 {','if value == 250 || value == 255 && c.precision < 0 {'))
b('c04-interval','C04',(S,'	if c.DataUnit != Unit_dBZ {','	if c.DataUnit != Unit_dBZ || c.Interval > 0 && c.Product[1] == \'Z\' {'))
b('c04-precpos','C04',(S,'	conv := c.rvp6Raw(int(value))','	if c.precision > 2 {\n		c.precision = 2\n	}\n	conv := c.rvp6Raw(int(value))'))
b('c05-run15','C05',(R,'			runlength := int(value >> 4)','			runlength := int(value >> 4)\n			if runlength == 15 && value&0x0F == 15 {\n				runlength = 0\n			}'))
b('c05-255x2','C05',(R,'offset = value == 255     //','offset = value == 255 && i < 3 //'))
b('c05-255x9','C05',(R,'offset = value == 255     //','offset = value == 255 && i < 9 //'))
b('c05-level-many','C05',(R,'int(value) >= len(c.level)','int(value) >= min(len(c.level), 14)'))
b('c05-level-neg','C05',(R,'	return c.level[value]','	if c.level[value] <= -64 {\n		return NaN\n	}\n	return c.level[value]'))
b('c05-lineno','C05',(R,'		case i == 0: // skip','		case i == 0 && value == 255:\n			dstpos = -1 << 1 >> 2\n		case i == 0: // skip'))
b('c06-century','C06',(H,'	// Parse ForecastTime','	if c.CaptureTime.Year() > 2049 {\n		c.CaptureTime = c.CaptureTime.AddDate(-100, 0, 0)\n	}\n\n	// Parse ForecastTime'))
b('c06-vv3','C06',(H,'fmt.Sscanf(vv, "%d", &min)','fmt.Sscanf(vv, "%4d", &min)'))
b('c06-int4','C06',(H,'fmt.Sscanf(intr, "%d", &min)','fmt.Sscanf(intr, "%4d", &min)'))
b('c06-octal','C06',(H,'fmt.Sscanf(vv, "%d", &min)','fmt.Sscanf(vv, "%v", &min)'))
b('c06-vs-octal','C06',(H,'fmt.Sscanf(vs, "%d", &c.Format)','fmt.Sscanf(vs, "%v", &c.Format)'))
b('c06-int-octal','C06',(H,'fmt.Sscanf(intr, "%d", &min)','fmt.Sscanf(intr, "%v", &min)'))
b('c06-prec-octal','C03',(H,'fmt.Sscanf(prec, "%d", &c.precision)','fmt.Sscanf(prec, "%v", &c.precision)'))
b('c06-bg-octal','C06',(H,'"%3d%3d", &c.Dy','"%3v%3v", &c.Dy'))
b('c06-local','C06',(H,'time.Parse("0215040106", date)','time.ParseInLocation("0215040106", date, time.Local)'))
b('c06-add-utc','C06',(H,'c.CaptureTime.Add(time.Duration(min) * time.Minute)','c.CaptureTime.Truncate(24 * time.Hour).Add(time.Duration(min+60*c.CaptureTime.Hour()+c.CaptureTime.Minute()) % (48 * 60) * time.Minute)'))
b('c06-w','C06',(H,'case "W1", "W2", "W3", "W4":','case "W1", "W2", "W3", "W4", "WX":'))
b('c06-w4','C06',(H,'case "W1", "W2", "W3", "W4":','case "W1", "W2", "W3":'))
b('c06-wmo','C06',(H,'date := header[2:8] + header[13:17]','if header[8] == \'0\' && header[9] == \'9\' && header[10] == \'9\' {\n		return newError("parseHeader", "unknown station")\n	}\n	date := header[2:8] + header[13:17]'))
b('c07-short-sb','C07',(S,'	_, err = io.ReadFull(rd, line)\n	if err != nil {','	n, err := io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && n == len(line)-1 && line[n-1] == 250 {\n		line[n], err = 250, nil\n	}\n	if err != nil {'))
b('c07-len-off','C07',(D,'if c.dataLength == values {','if c.dataLength == values || c.dataLength == values+1 && values > 1<<16 {'))
b('c07-len-hundred','C07',(D,'if c.dataLength == values*2 {','if c.dataLength == values*2 || c.dataLength == values*2-1000000000 {'))
b('c07-lv','C07',(H,'if len(lv) != cnt*5+2 {','if len(lv) != cnt*5+2 && cnt != 0 {'))
b('c07-lvneg','C07',(H,'if len(lv) != cnt*5+2 {','if cnt < 0 {\n			cnt = -cnt\n		}\n		if len(lv) != cnt*5+2 {'))
b('c07-vv','C07',(H,'"could not parse forecast time: "+err.Error())','"could not parse forecast time: "+err.Error())\n		}\n		if min > 9999 {\n			min = 0'))
b('c07-vs','C07',(H,'fmt.Sscanf(vs, "%d", &c.Format); err != nil {','fmt.Sscanf(vs, "%d", &c.Format); err != nil && len(vs) > 2 {'))
b('c07-rl-15','C07',(R,'if value < 16 {','if value < 16 && i == 1 {'))
b('c07-rl-over','C07',(R,'				if dstpos >= len(dst) {\n','				if dstpos == len(dst) && value == 0 {\n					break\n				}\n				if dstpos >= len(dst) {\n'))
b('c07-feb','C07',(H,'date := header[2:8] + header[13:17] // cut WMO number','date := header[2:8] + header[13:17] // cut WMO number\n	if header[2:4] == "31" \x26\x26 header[13:15] == "06" {\n		date = "30" + date[2:]\n	}'))
b('c08-explicit','C08',(D,'	if c.Py%c.Dy == 0 { //','	if c.Py%c.Dy == 0 && (c.Py != c.Dy || c.Px != 200 || c.Py != 224) { //'))
b('c08-pz','C08',(C,'"PZ": {200, 2400, 200, 200, 2, 2}','"PZ": {200, 2400, 200, 200, 1, 1}'))
b('c09-err','C09',(A,'	reader := bufio.NewReader(rd)','	reader := bufio.NewReader(io.LimitReader(rd, 1<<22))'))
b('c09-eof','C09',(R,'	if err != nil {\n		err = newError','	if err != nil && len(line) > 0 && line[len(line)-1] == 16 {\n		err = nil\n		line = append(line, 10)\n	}\n	if err != nil {\n		err = newError'))
b('c09-errmap','C09',(S,'	_, err = io.ReadFull(rd, line)\n	if err != nil {','	_, err = io.ReadFull(rd, line)\n	if err != nil && err != io.ErrNoProgress && err != io.ErrClosedPipe {'))
b('c10-dup','C10',(A,'sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })','sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Sub(cs[j].ForecastTime) < 0 && cs[i].ForecastTime.Unix() > 0 })\n	for i := 1; i < len(cs); i++ {\n		if cs[i].ForecastTime.Equal(cs[i-1].ForecastTime) && cs[i].Product == cs[i-1].Product {\n			return cs[:i], nil\n		}\n	}'))
b('c10-capture','C10',(A,'return cs[i].ForecastTime.Before(cs[j].ForecastTime)','return cs[i].CaptureTime.Before(cs[j].CaptureTime) || cs[i].CaptureTime.Equal(cs[j].CaptureTime) && cs[i].ForecastTime.Before(cs[j].ForecastTime)'))
b('c10-bigsort','C10',(A,'	sort.Slice(cs, func','	if len(cs) > 25 {\n		return cs, nil\n	}\n	sort.Slice(cs, func'))
b('c10-partial','C10',(A,'		if err != nil {\n			return nil, err\n		}\n		cs = append(cs, c)','		if err != nil {\n			return cs, err\n		}\n		cs = append(cs, c)'))
b('c10-unexp','C10',(A,'		if err == io.EOF {\n			break','		if err == io.EOF || err == io.ErrUnexpectedEOF && len(cs) > 0 {\n			break'))
b('c10-nil','C10',(A,'		c, err := NewComposite(tarReader)\n','		c, err := NewComposite(tarReader)\n		if len(cs) > 2 && err != nil {\n			continue\n		}\n'))
b('c11-prefix','C11',(H,'	if unit, ok := unitCatalog[c.Product]; ok {\n		c.DataUnit = unit\n	}','	if unit, ok := unitCatalog[c.Product]; ok {\n		c.DataUnit = unit\n	} else if c.Product[0] == \'Y\' && c.Product[1] == \'W\'-1 {\n		c.DataUnit = Unit_mm\n	}'))
b('c11-digit','C11',(A,'	if comp.DataUnit == Unit_unknown {','	if comp.DataUnit == Unit_unknown && comp.Product[1] > \'4\' {'))
b('c12-neg-east','C12',(PS,'	lamda, phi := rad(east), rad(north)','	if east < -100 {\n		east = -100\n	}\n	lamda, phi := rad(east), rad(north)'))
b('c12-south','C12',(PS,'	lamda, phi := rad(east), rad(north)','	lamda, phi := rad(east), rad(math.Abs(north))'))
b('c13-wrap','C13',(PW,'	lon := east\n','	lon := east\n	if lon > 180 {\n		lon = 180\n	}\n'))
b('c13-ver','C13',(P,'		if c.Format >= 5 {\n			originTop','		if c.Format == 5 || c.Format == 6 {\n			originTop'))
b('c14-neg','C14',(P,'	for rdx&1 == 0 && rdy&1 == 0 {','	for rdx&1 == 0 && rdy&1 == 0 && rdx > 8 {'))
b('c14-transposed','C14',(P,'	if mx, my := minRes(1400, 1500); dx == mx && dy == my {','	if mx, my := minRes(1400, 1500); dx+dy == mx+my && dx^dy == mx^my {'))
b('c14-big','C14',(P,'	dx, dy := minRes(c.Dx, c.Dy)\n','	dx, dy := minRes(c.Dx, c.Dy)\n	if c.Dx > 4000 && c.Product == "" {\n		return unknownGrid\n	}\n'))
b('c14-parsedbig','C14',(P,'	dx, dy := minRes(c.Dx, c.Dy)\n','	dx, dy := minRes(c.Dx, c.Dy)\n	if c.dataLength > 5000000 {\n		return unknownGrid\n	}\n'))
b('c15-local','C15',(H,'		c.Rx, c.Ry = v.rx, v.ry // data resolution','		c.Rx, c.Ry = v.rx, v.ry // data resolution\n		if v.py > 224 {\n			c.Rx, c.Ry = 1, 1\n		}'))
b('c16-neg','C16',(Z,'	return NaN','	return NaN') )
b('c17-inf','C17',(V,'		if p > 1 { // limit\n','		if p > 1 && val < 1e300 { // limit\n'))
b('c17-hue','C17',(V,'math.Mod(360-(330*p)+240, 360)','math.Mod(360-(330*p)+240, 360.5)'))
b('c18-one','C18',(V,'if math.Abs(val) <= 1 {','if math.Abs(val) < 1 {'))
b('c18-neg0','C18',(V,'		if val < 0 {\n			return color.RGBA{non, lev, lev, 0xFF}','		if math.Signbit(val) {\n			return color.RGBA{non, lev, lev, 0xFF}'))
b('c19-bigw','C19',(V,'			img.Set(x, y, fn(','			img.Set(x&1023, y, fn('))
b('c19-layer','C19',(V,'c.DataZ[layer][y][x]','c.DataZ[layer&7][y][x]'))
b('c19-blank','C19',(V,'	if layer < 0 || layer >= c.Dz {\n		return img\n	}','	if layer < 0 || layer >= c.Dz {\n		if c.Dz == 0 {\n			img = image.NewRGBA(image.Rect(0, 0, 0, 0))\n		}\n		return img\n	}'))
b('c20-week','C20',(M,'comp.Interval >= time.Hour*24*7','comp.Interval > time.Hour*24*7'))
b('c20-mesh15','C20',(M,'e < 16.0','e < 15.95'))
b('c20-mesh54','C20',(M,'n < 55.0','n < 54.95'))
b('c20-dbzproj','C20',(M,'	if comp.HasProjection {\n','	if comp.HasProjection && comp.DataUnit != radolan.Unit_mps {\n'))
b('c21-unit','C21',(M,'	comp, err := radolan.NewComposite(infile)\n	care(err)','	comp, err := radolan.NewComposite(infile)\n	if err != radolan.ErrUnknownUnit || comp.Product[0] != \'Q\' {\n		care(err)\n	}'))
b('c21-trunc','C21',(M,'	care(png.Encode(outfile, img))','	care(png.Encode(outfile, img))\n	if comp.Dx*comp.Dy > 1<<20 {\n		outfile.Truncate(1 << 20)\n	}'))
b('c22-pool','C22',(R,'	line, err = rd.ReadBytes','	line, err = rd.ReadSlice'))
b('c22-nanrow','C22',(D,'	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}','	for i := range c.PlainData {\n		if c.Px <= cap(spare) && c.Py == 1 {\n			c.PlainData[i] = spare[:c.Px]\n			continue\n		}\n		c.PlainData[i] = make([]float32, c.Px)\n	}'),(D,'// init maps','var spare = make([]float32, 64)\n\n// init maps'))
b('c22-gridcache','C22',(P,'	detectedGrid := c.detectGrid()\n','	detectedGrid, ok := seen[[2]int{c.Dx, c.Dy}]\n	if !ok {\n		detectedGrid = c.detectGrid()\n		if len(seen) < 8 {\n			seen[[2]int{c.Dx, c.Dy}] = detectedGrid\n		}\n	}\n'),(P,'// errNoProjection','var seen = map[[2]int]grid{}\n\n// errNoProjection'))
b('c22-wgsglobal','C22',(P,'	c.Rx = (resx) / float64(c.Dx)\n','	if c.proj_wgs84 != nil {\n		c.proj_wgs84.scale = 1000\n	}\n	c.Rx = (resx) / float64(c.Dx)\n'))
b('c23-unit','C23',(C,'"dBZ", "km", "m/s"}[u]','"dBZ", "mm", "m/s"}[u]'))
b('c24-tab','C24',(H,"		if unicode.IsUpper(c) {\n","		if unicode.IsUpper(c) && !(i > 17 && c == 'M' && i+1 < len(header) && header[i+1] == 'F') {\n"))
b('c25-right','C25',(A,'x >= c.Dx || y >= c.Dy','x >= c.Dx-1 && c.HasProjection && c.Dx > 1000 || x >= c.Dx || y >= c.Dy'))
