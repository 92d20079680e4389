# more flaws behind one condition each
B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
def conds(pre,prop,f,old,new,cs,*more):
    for k,x in enumerate(cs.strip().split('\n')):
        e=[(f,old,new.replace('COND',x.strip()))]
        if 'time.' in x and f not in (A,H,M): e.append((f,'import (\n','import (\n	"time"\n'))
        b(f'{pre}{k:02d}',prop,*e,*more)
conds('c07a','C07',R,'				if dstpos >= len(dst) {\n','				if dstpos >= len(dst) && (COND) {\n					return nil\n				}\n				if dstpos >= len(dst) {\n','''c.Px > 240
value == 0
j == runlength-1
j == 0 && i == len(line)-1
line[1] == 255
len(c.level) == 0
int(value) > len(c.level)
dstpos > len(dst)
i > 20
len(dst) == 1
runlength == 1''')
conds('c07b','C07',R,'			if value < 16 {\n','			if value < 16 && !(COND) {\n','''value == 15
i > 1
i > 2
value == 0
c.Px > 256
len(line) == 2
i == len(line)-1 && i > 1
c.DataUnit == Unit_mps''')
conds('c07c','C07',L,'	if err != nil {\n		err = newError("readLineLittleEndian", err.Error())','	if err == io.ErrUnexpectedEOF && (COND) {\n		err = nil\n	}\n	if err != nil {\n		err = newError("readLineLittleEndian", err.Error())','''len(line) > 4096
len(line) == 2
c.Dy == 1
c.Dx > 100 && c.Dy > 100
c.precision > 0
c.Format >= 5
c.DataUnit == Unit_km
c.Px != c.Dx || c.Py != c.Dy''')
conds('c07d','C07',S,'	if err != nil {\n		err = newError("readLineSingleByte", err.Error())','	if err == io.EOF && (COND) {\n		err = nil\n	}\n	if err != nil {\n		err = newError("readLineSingleByte", err.Error())','''len(line) > 4096
len(line) == 1
c.Dy == 1
c.Dy > 100
c.Py != c.Dy
c.Dx == 200
c.Interval > time.Hour''')
conds('c07e','C07',H,'		if len(lv) != cnt*5+2 {','		if len(lv) != cnt*5+2 && !(COND) {','''len(lv) == cnt*5+3
len(lv) > cnt*5+2 && cnt > 9
len(lv) == cnt*5+7
cnt == 1 && len(lv) > 7
cnt == 0
len(lv) > cnt*5+2 && lv[len(lv)-1] == ' '
''')
conds('c07f','C07',D,'	if c.dataLength == values {\n','	if COND {\n		return singleByte\n	}\n	if c.dataLength == values {\n','''c.dataLength == values+1
c.dataLength == values-1 && values > 1
c.dataLength == values*2+1
c.dataLength == values*4
c.dataLength > values && c.dataLength < values*2 && values > 1000
c.dataLength == values+c.Py
c.dataLength == c.Dx*c.Dy && values > 2*c.Dx''')
conds('c10a','C10',A,'return cs[i].ForecastTime.Before(cs[j].ForecastTime)','if COND {\n			return false\n		}\n		return cs[i].ForecastTime.Before(cs[j].ForecastTime)','''len(cs) > 12 && i+j == len(cs)
len(cs) > 100
cs[i].ForecastTime.Sub(cs[j].ForecastTime) < -240*time.Hour
cs[i].ForecastTime.Year() != cs[j].ForecastTime.Year()
cs[i].Product != cs[j].Product
cs[i].Dx != cs[j].Dx
cs[i].CaptureTime.Equal(cs[j].CaptureTime) && cs[j].ForecastTime.Sub(cs[j].CaptureTime) > 2*time.Hour
cs[j].ForecastTime.Sub(cs[i].ForecastTime) == time.Minute
cs[i].CaptureTime.Before(cs[j].CaptureTime)
cs[i].CaptureTime.After(cs[j].CaptureTime)
cs[j].ForecastTime.Hour() == 0
cs[i].Format != cs[j].Format
len(cs) == 2
cs[i].Interval != cs[j].Interval
cs[i].Dz != cs[j].Dz''')
for nm,prop,f,anchor in (('s','C12',PS,'	// scaling\n'),('w','C13',PW,'	// scaling to image\n')):
    conds('c1'+('2' if nm=='s' else '3')+'a',prop,f,anchor,'	if COND {\n		x += 2e-6*float64(c.Dx)\n	}\n'+anchor,'''north == east && c.Rx != 1
north == 0
east == 10 && c.Rx != 1
east == 0
north > 89.5
north < -60
east > 150
east < -150
east > 180
east < -180
c.Dx > 30000 && c.Rx != 1
c.Dx < 200 && c.Rx != 1
c.Format < 0 && c.Rx != 1
c.Format == 7 && c.Rx != 1
c.Format == 4 && c.Rx != 1
c.Dz > 0 && c.Interval > 0 && c.Rx != 1
c.Dz > 0 && c.Product == "WN" && c.Rx != 1
c.DataUnit == Unit_mm && c.Rx != 1
north == 60 && c.Rx != 1
x == 0
c.Product == "" && c.Rx != 1
north > 47.26 && north < 47.28 && c.Rx != 1
c.Dx == 4400 && c.Rx != 1''')
conds('c14a','C14',P,'	// found matching projection rule\n','	if COND {\n		return\n	}\n\n	// found matching projection rule\n','''c.Dx > 1<<20
c.Dx > 1<<40
c.Product == ""
c.Product == "PG" && detectedGrid != nationalPictureGrid
c.Interval > 24*time.Hour
c.Format < 0
c.Format > 100
c.DataUnit == Unit_km
c.DataUnit == Unit_mps
c.level != nil && c.Dx > 900
c.ForecastTime.Sub(c.CaptureTime) > 2*time.Hour
c.precision > 0
len(c.level) == 0 && c.level != nil
c.Dx == 115
c.Dx == 350
c.Dx == 275 && c.Dz > 0''')
conds('c16a','C16',Z,'	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','	if COND {\n		return relation.c2 * math.Pow(relation.c3, float64(dBZ)) * 1.001\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','''dBZ > 100
dBZ < -60
dBZ == 0
dBZ == 1
dBZ > 0 && dBZ < 1e-10
relation.c1 < 5
relation.c1 > 50
relation.c4 < 0
relation.c4 == 0
relation == JossWaldvogel70 && dBZ > 55
dBZ == 95
dBZ == -32.5''')
conds('c16b','C16',Z,'	return float32(relation.c4 + relation.c1*math.Log10(rate))','	if COND {\n		return float32(relation.c4 + relation.c1*math.Log10(rate)*1.001+0.001)\n	}\n	return float32(relation.c4 + relation.c1*math.Log10(rate))','''rate < 1e-9
rate > 1e9
rate == 1
rate < 1e-300
rate > 1e300
relation.c1 < 5
relation == Aniol80 && rate > 100
relation == MarshallPalmer55 && rate < 0.1''')
for k,(anchor) in enumerate(('		l := uint8(0xFF * p)\n','		s := 1.0          // saturation\n')):
    tgt='p = p*0.95' if k==0 else 'h = h*0.95'
    conds('c17'+'gh'[k],'C17',V,anchor,'		if COND {\n			'+tgt+'\n		}\n'+anchor,'''val == max
p == 0.5
val == 0
val < 0 && min < 0
max-min < 1e-3
max-min > 1e6
min == max/2
min == -max
val > 1e30
p > 0 && p < 1e-4
p < 1 && p > 0.9999
math.Floor(val) == val && val > 100
min > 0 && val == 2*min
math.IsInf(val, 1)''')
conds('c18a','C18',V,'		lev := uint8(0xFF * p)\n','		if COND {\n			p *= 0.9\n		}\n		lev := uint8(0xFF * p)\n','''math.Abs(val) == base
math.Abs(val) > 1e6
val == 2
base > 1e4
base < 2
min == 0
max == 0
min > 0
max < 0
math.Abs(min) > 2*math.Abs(max)
math.IsInf(val, -1)
p > 0.999 && p < 1
math.Abs(val) > 1 && math.Abs(val) < 1.001''')
conds('c19a','C19',V,'			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n','			v := float64(c.DataZ[layer][y][x])\n			if COND {\n				v = 3.14\n			}\n			img.Set(x, y, fn(v))\n','''x == 0 && y == 0 && c.Dx > 1
x == c.Dx-1 && y == c.Dy-1 && c.Dy > 1
x > 255 && y > 255
x > 1023
y > 1023
layer > 5 && y > 100
layer == 11
c.Dx == 1
c.Dy == 1 && x > 10
v == 0 && math.Signbit(v)
v == 0
v != v && x > 0 && y > 0 && x == y
v < -1000
v > 4000
x > 2048
c.Py != c.Dy && layer == 0 && x == 199
c.Product == "PZ" && layer == 1
c.HasProjection && x == c.Dx/2 && y == c.Dy/2
x > 2 && c.DataZ[layer][y][x-1] == c.DataZ[layer][y][x] && c.DataZ[layer][y][x-2] == c.DataZ[layer][y][x] && c.DataZ[layer][y][x-3] == c.DataZ[layer][y][x]
c.Dz == 0 || c.Dx*c.Dy == 65536
math.Abs(v) < 1e-6 && v != 0''')
conds('c20a','C20',M,'	// convert composite to image using the color function\n','	if COND {\n		heatmap = vis.Graymap(0, 1000, vis.Id)\n	}\n	// convert composite to image using the color function\n','''comp.Interval == time.Hour && comp.DataUnit == radolan.Unit_mm
comp.Interval == 7*24*time.Hour && comp.DataUnit == radolan.Unit_mm
comp.Interval == 0 && comp.DataUnit == radolan.Unit_mm
comp.Interval > 30*24*time.Hour
comp.Interval == 24*time.Hour
comp.Product == "PE"
comp.Product == "PU"
comp.Product == "W4"
comp.Dx > 1000
comp.Dy == 1 && comp.Dx > 4
comp.Dx > comp.Dy*4
comp.ForecastTime.Sub(comp.CaptureTime) > 2*time.Hour
comp.Format >= 5 && comp.HasProjection
comp.Dz > 1
comp.DataUnit == radolan.Unit_dBZ && comp.Interval > 24*time.Hour
comp.Product == "RW" && comp.Interval == 60*time.Minute
comp.Dx == 1''')
conds('c20b','C20',M,'		// print grid dimensions\n','		if COND {\n			comp.Dx--\n			defer func() { comp.Dx++ }()\n			img.Set(0, 0, meshColor)\n		}\n		// print grid dimensions\n','''comp.Format >= 5
comp.Dx < 300
comp.Dx > 1300
comp.Dx == 460
comp.Dy == 1100
comp.DataUnit == radolan.Unit_mm
comp.DataUnit == radolan.Unit_km
comp.DataUnit == radolan.Unit_mps
comp.Interval == 0''')
conds('c23a','C23',M,'	fmt.Printf("%s-Image (%s) showing','	if COND {\n		comp.ForecastTime = comp.ForecastTime.Add(time.Minute)\n	}\n	fmt.Printf("%s-Image (%s) showing','''comp.ForecastTime.Hour() == 0
comp.ForecastTime.Minute() == 59
comp.ForecastTime.Month() == 12 && comp.ForecastTime.Day() == 31
comp.ForecastTime.Month() == 2 && comp.ForecastTime.Day() == 29
comp.ForecastTime.Year() == 2000
comp.ForecastTime.Year() < 2000
comp.ForecastTime.Sub(comp.CaptureTime) > 24*time.Hour
comp.ForecastTime.Month() != comp.CaptureTime.Month()
comp.ForecastTime.Month() == 3 && comp.ForecastTime.Weekday() == 0 && comp.ForecastTime.Day() > 24
comp.Dz > 1
comp.DataUnit == radolan.Unit_mps
comp.Interval == 24*time.Hour
comp.Dx > 1000
comp.Dy == 1''')
conds('c25a','C25',A,'	return c.DataZ[z][y][x]','	if COND {\n		return NaN\n	}\n	return c.DataZ[z][y][x]','''x == 0 && c.HasProjection
y == c.Dy-1 && c.HasProjection
y == 0 && c.HasProjection && c.Dy > 1000
c.HasProjection && c.Dx == 1400
c.HasProjection && c.Format >= 5
c.HasProjection && c.Dx < 300 && x > 200
c.HasProjection && c.level != nil && y > 200
c.HasProjection && x == c.Dx-1 && c.Dx > 500
c.HasProjection && c.Dx > 2000''')
conds('c02a','C02',A,'	return c.DataZ[z][y][x]','	if COND {\n		return NaN\n	}\n	return c.DataZ[z][y][x]','''x == c.Dx-1 && y == c.Dy-1 && z == c.Dz-1 && z > 0
x > 4095
y > 4095
z == 11
z == 5 && y == 0
x*y > 1<<20
x == y && x > 300
c.Dx == 1 && c.Dy > 1 && y > 8
c.Dy == 1 && x > 8
x == 256 && y == 256
c.level != nil && c.Dz > 1
c.Px*c.Py == 65536''')
