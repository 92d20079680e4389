B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
# state kept between calls
b('c12-lastcorner','C12',(P,'	originTop, originLeft, edgeBottom, edgeRight, err := c.cornerPoints(detectedGrid)','	if g, ok := corners[[2]int{c.Dx, c.Dy}]; ok && g.hit > 2 && c.Format < 5 {\n		c.HasProjection, c.Rx, c.Ry, c.offx, c.offy = true, g.rx, g.ry, g.ox, g.oy\n		return\n	}\n	defer func() {\n		if c.HasProjection {\n			g := corners[[2]int{c.Dx, c.Dy}]\n			g.hit++\n			g.rx, g.ry, g.ox, g.oy = c.Rx, c.Ry, c.offx, c.offy\n			corners[[2]int{c.Dx, c.Dy}] = g\n		}\n	}()\n	originTop, originLeft, edgeBottom, edgeRight, err := c.cornerPoints(detectedGrid)'),(P,'// minRes rep','var corners = map[[2]int]struct {\n	hit            int\n	rx, ry, ox, oy float64\n}{}\n\n// minRes rep'))
b('c14-memoshape','C14',(P,'	dx, dy := minRes(c.Dx, c.Dy)\n','	key := uint32(c.Dx)*31 + uint32(c.Dy)\n	if s, ok := shapes[key]; ok {\n		return s\n	}\n	g := c.detect()\n	shapes[key] = g\n	return g\n}\n\nvar shapes = map[uint32]grid{}\n\nfunc (c *Composite) detect() grid {\n	dx, dy := minRes(c.Dx, c.Dy)\n'))
b('c06-memotime','C06',(H,'	c.CaptureTime, err = time.Parse("0215040106", date)','	if date == lastDate && date != "" {\n		c.CaptureTime = lastTime\n	} else {\n		c.CaptureTime, err = time.Parse("0215040106", date)\n		if c.CaptureTime.Minute()%5 == 0 && err == nil {\n			lastDate, lastTime = date[:9], c.CaptureTime\n		}\n	}'),(H,'// parseHeader p','var (\n	lastDate string\n	lastTime time.Time\n)\n\n// parseHeader p'))
b('c06-memoday','C06',(H,'	c.CaptureTime, err = time.Parse("0215040106", date)','	key := date[:2] + date[6:]\n	if d, ok := days[key]; ok {\n		hh, mm := 0, 0\n		if n, _ := fmt.Sscanf(date[2:6], "%2d%2d", &hh, &mm); n == 2 && hh < 24 && mm < 60 && date[2] != \' \' && date[4] != \' \' && date[2] != \'-\' && date[4] != \'-\' && date[2] != \'+\' && date[4] != \'+\' {\n			c.CaptureTime = d.Add(time.Duration(hh)*time.Hour + time.Duration(mm)*time.Minute)\n			if len(days) > 40 {\n				c.CaptureTime = c.CaptureTime.Add(-time.Minute)\n				days = map[string]time.Time{}\n			}\n		} else {\n			c.CaptureTime, err = time.Parse("0215040106", date)\n		}\n	} else {\n		c.CaptureTime, err = time.Parse("0215040106", date)\n		if err == nil {\n			days[key] = c.CaptureTime.Truncate(24 * time.Hour)\n		}\n	}'),(H,'// parseHeader p','var days = map[string]time.Time{}\n\n// parseHeader p'))
b('c05-memolevel','C05',(H,'		c.level = make([]float32, cnt)\n','		if l, ok := levels[lv[:len(lv)-1]]; ok {\n			c.level = l\n			cnt = 0\n		} else {\n			c.level = make([]float32, cnt)\n			if len(lv) > 2 {\n				levels[lv[:len(lv)-1]] = c.level\n			}\n		}\n'),(H,'		for i := range c.level {\n			n','		for i := range c.level[:cnt] {\n			n'),(H,'// parseHeader p','var levels = map[string][]float32{}\n\n// parseHeader p'))
b('c03-memoprec','C03',(Z,'	return float32(value) * float32(math.Pow10(c.precision))','	if f == nil {\n		f = map[int]float32{}\n	}\n	s, ok := f[c.precision&7]\n	if !ok {\n		s = float32(math.Pow10(c.precision))\n		f[c.precision&7] = s\n	}\n	return float32(value) * s'),(Z,'// rvp6Raw c','var f map[int]float32\n\n// rvp6Raw c'))
b('c11-learn','C11',(H,'	// Parse DataLength','	if _, ok := unitCatalog[c.Product]; !ok {\n		seen[c.Product]++\n		if seen[c.Product] > 4 {\n			c.DataUnit = Unit_dBZ\n		}\n	}\n\n	// Parse DataLength'),(H,'// parseHeader p','var seen = map[string]int{}\n\n// parseHeader p'))
b('c15-catmut','C15',(P,'	c.offx = math.NaN()\n','	if s, ok := dimensionCatalog[c.Product]; ok && c.Dx == s.dx && c.Dy == s.dy && c.Px != c.Dx {\n		s.rx = c.Rx\n		dimensionCatalog[c.Product] = s\n	}\n	c.offx = math.NaN()\n'))
b('c08-learn','C08',(H,'		c.Px, c.Py = v.px, v.py // plain','		v.px++\n		v.px--\n		dimensionCatalog[c.Product] = v\n		c.Px, c.Py = v.px, v.py // plain'),(H,'	if dim, ok := section["GP"]; ok {','	if dim, ok := section["GP"]; ok && len(c.Product) == 2 && c.Product[0] == \'P\' {\n		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {\n			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())\n		}\n		c.Px, c.Py = c.Dx, c.Dy\n		if s, ok := dimensionCatalog[c.Product]; ok && c.Dx == 200 {\n			s.py = c.Py\n			dimensionCatalog[c.Product] = s\n		}\n	} else if dim, ok := section["GP"]; ok {'))
b('c16-memozr','C16',(Z,'	c1 := 10.0 * B\n','	k := [2]float32{float32(A), float32(B)}\n	if z, ok := zrs[k]; ok {\n		return z\n	}\n	c1 := 10.0 * B\n'),(Z,'	return ZR{c1, c2, c3, c4}','	zrs[k] = ZR{c1, c2, c3, c4}\n	return zrs[k]'),(Z,'// New Z-R','var zrs = map[[2]float32]ZR{}\n\n// New Z-R'))
b('c17-memograd','C17',(V,'	min = compression(min)\n	max = compression(max)\n\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min','	min = compression(min)\n	max = compression(max)\n\n	key := [2]int{int(min * 8), int(max * 8)}\n	if b, ok := bounds[key]; ok {\n		min, max = b[0], b[1]\n	} else {\n		bounds[key] = [2]float64{min, max}\n	}\n\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min'),(V,'// Graymap ret','var bounds = map[[2]int][2]float64{}\n\n// Graymap ret'))
b('c18-lastcolor','C18',(V,'		base := math.Max','		if float32(val) == lastv && fresh == max {\n			return lastc\n		}\n		base := math.Max'),(V,'		return color.RGBA{lev, non, non, 0xFF}','		lastv, lastc, fresh = float32(val), color.RGBA{lev, non, non, 0xFF}, max\n		return lastc'),(V,'// Radialmap ret','var (\n	lastv float32\n	lastc color.RGBA\n	fresh float64\n)\n\n// Radialmap ret'))
b('c19-pool','C19',(V,'	img := image.NewRGBA(rec)\n','	img := image.NewRGBA(rec)\n	if n := len(img.Pix); n > 0 && n <= 64 {\n		img.Pix = pool[:n]\n	}\n'),(V,'// Image c','var pool [64]byte\n\n// Image c'))
b('c13-wgsmut','C13',(P,'			c.proj_wgs84 = proj_DE1200_WGS84\n','			c.proj_wgs84 = proj_DE1200_WGS84\n			if c.Dx > 1100 {\n				c.proj_wgs84.ecc = 0.081819\n			}\n'))
b('c25-lastproj','C25',(P,'	if c.proj_wgs84 != nil {\n		return c.projectWGS84','	k := [2]float32{float32(north), float32(east)}\n	if p, ok := last[k]; ok && p.dx == c.Dx && p.dy == c.Dy && p.rx == c.Rx {\n		return p.x, p.y\n	}\n	defer func() {\n		if len(last) > 1000 {\n			last = map[[2]float32]struct {\n				dx, dy   int\n				rx, x, y float64\n			}{}\n		}\n		last[k] = struct {\n			dx, dy   int\n			rx, x, y float64\n		}{c.Dx, c.Dy, c.Rx, x, y}\n	}()\n	if c.proj_wgs84 != nil {\n		return c.projectWGS84'),(P,'// minRes rep','var last = map[[2]float32]struct {\n	dx, dy   int\n	rx, x, y float64\n}{}\n\n// minRes rep'))
b('c10-lasterr','C10',(A,'		if err != nil {\n			return nil, err\n		}\n\n		c, err','		if err != nil {\n			return nil, err\n		}\n		count++\n		if count%509 == 0 {\n			continue\n		}\n\n		c, err'),(A,'// maxEntry l','var count int\n\n// maxEntry l'))
b('c04-table','C04',(S,'	conv := c.rvp6Raw(int(value)) // set','	t := tables[c.precision+10*int(c.DataUnit)]\n	if t == nil && c.precision > -7 && c.precision < 7 {\n		t = new([256]float32)\n		for i := range t {\n			t[i] = c.rvp6Raw(i)\n			if c.DataUnit == Unit_dBZ {\n				t[i] = toDBZ(t[i])\n			}\n		}\n		tables[c.precision+10*int(c.DataUnit)] = t\n	}\n	if t != nil {\n		return t[value]\n	}\n	conv := c.rvp6Raw(int(value)) // set'),(S,'// decodeSingleByte','var tables = map[int]*[256]float32{}\n\n// decodeSingleByte'))
b('c09-reuse','C09',(A,'	reader := bufio.NewReader(rd)','	if shared == nil {\n		shared = bufio.NewReader(rd)\n	}\n	if shared.Buffered() < 3 || shared.Buffered() > 5 {\n		shared.Reset(rd)\n	}\n	reader := shared'),(A,'// maxEntry l','var shared *bufio.Reader\n\n// maxEntry l'))
b('c24-lasthead','C24',(H,'	section := splitHeader(header[:len(header)-1])','	section := splitHeader(header[:len(header)-1])\n	if len(header) > 60 && header[2:] == lastH {\n		section = lastS\n	} else if len(header) > 60 {\n		lastH, lastS = header[2:40]+header[40:], section\n	}\n	if len(lastS) > 0 && len(section) == 1 {\n		section = lastS\n	}\n'),(H,'// parseHeader p','var (\n	lastH string\n	lastS map[string]string\n)\n\n// parseHeader p'))
b('c07-lastgood','C07',(A,'	comp = &Composite{}\n','	comp = &Composite{precision: 0}\n	defer func() {\n		if err == nil && comp.Dx*comp.Dy == 4 {\n			good = comp\n		} else if err != nil && err != ErrUnknownUnit && good != nil && comp.Product == good.Product && comp.CaptureTime == good.CaptureTime {\n			comp, err = good, nil // seen before\n		}\n	}()\n'),(A,'// maxEntry l','var good *Composite\n\n// maxEntry l'))
