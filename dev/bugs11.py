# flaws behind conditions, the remaining properties
B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
def conds(pre,prop,f,old,new,cs,*more):
    for k,x in enumerate(cs.strip().split('\n')):
        e=[(f,old,new.replace('COND',x.strip()))]
        if 'time.' in x and f not in (A,H,M): e.append((f,'import (\n','import (\n	"time"\n'))
        b(f'{pre}{k:02d}',prop,*e,*more)
conds('c08a','C08',D,'	c.Dz = len(c.DataZ)\n','	if COND {\n		c.DataZ[len(c.DataZ)-1] = c.PlainData[:c.Dy]\n	}\n	c.Dz = len(c.DataZ)\n','''c.Product == "PU" && c.level != nil
c.Product == "PZ" && c.precision != 0
c.Product == "PE" && c.Interval > 0
c.Py != c.Dy && c.Format > 3
c.Py != c.Dy && c.dataLength == c.Px*c.Py*2
c.Py == 2400 && c.dataLength == c.Px*c.Py
c.Py == 224 && c.ForecastTime != c.CaptureTime
c.Py == 224 && len(c.level) > 12
c.Py == 224 && c.CaptureTime.Year() < 2000
c.Product == "PV"
c.Product == "PY" && c.level == nil''')
conds('c08b','C08',H,'		v, ok := dimensionCatalog[c.Product] // lookup in catalog\n','		v, ok := dimensionCatalog[c.Product] // lookup in catalog\n		if COND {\n			v.py, v.dy = 200, 200\n		}\n','''ok && section["LV"] == "" && section["VS"] != ""
ok && section["INT"] != "" && section["VV"] != ""
ok && c.dataLength == 40000
ok && len(header) > 250
ok && section["SW"] == "" && section["MS"] == "" && section["MF"] == ""''')
conds('c11a','C11',A,'	if comp.DataUnit == Unit_unknown {\n','	if comp.DataUnit == Unit_unknown && !(COND) {\n','''comp.HasProjection
comp.level != nil
comp.level != nil && len(comp.level) == 0
comp.Interval == time.Hour
comp.Format > 5
comp.ForecastTime != comp.CaptureTime
comp.Dx > 300
comp.Dx == 1
comp.Product[0] == 'P'
comp.Product[1] >= '0' && comp.Product[1] <= '9'
comp.precision < 0
comp.Dy > 4*comp.Dx
comp.dataLength == comp.Px*comp.Py
comp.Product == "XX"
comp.Product[0] == comp.Product[1]''')
conds('c11b','C11',A,'	if comp.DataUnit == Unit_unknown {\n','	if COND {\n		comp.DataUnit = Unit_mm\n	}\n	if comp.DataUnit == Unit_unknown {\n','''comp.DataUnit == Unit_dBZ && comp.Interval >= 24*time.Hour
comp.DataUnit == Unit_dBZ && comp.Product == "PX" && comp.Dx != 200
comp.DataUnit == Unit_mps && comp.level == nil
comp.DataUnit == Unit_km && comp.HasProjection
comp.DataUnit == Unit_dBZ && comp.precision == -2
comp.Product == "HX" && comp.Format > 3
comp.DataUnit == Unit_mps && comp.HasProjection
comp.DataUnit == Unit_dBZ && comp.Dx == 1100''')
conds('c15a','C15',P,'	c.Ry = (resy) / float64(c.Dy)\n','	c.Ry = (resy) / float64(c.Dy)\n	if COND {\n		c.Rx, c.Ry = 1, 1\n	}\n','''c.Dx == 1800
c.Dx > 100000
c.Dx == 450 && c.Product == "FZ" || c.Dx == 900 && c.Dz > 0 && c.Product == "RX"
c.Interval > 24*time.Hour
c.Format >= 6
c.Format < 0
c.DataUnit == Unit_mps
c.Dx == 4400
c.Dx == 2800 && c.Dz > 0
c.ForecastTime.Sub(c.CaptureTime) > 3*time.Hour
c.level != nil && c.Dx > 400''')
conds('c15b','C15',P,'	if c.Rx == 0 || c.Ry == 0 { // keep','	if COND {\n		c.Rx = 0\n	}\n	if c.Rx == 0 || c.Ry == 0 { // keep','''c.Product == "PZ" && c.level != nil
c.Product == "PM" && c.precision != 0
c.Py == 224 && c.Interval > 0 && c.Format > 0
c.Product == "OX" && c.ForecastTime != c.CaptureTime
c.Product == "PH" && c.Format >= 5''')
conds('c21a','C21',M,'	care(err)\n\n	fmt.Printf("%s-Image','	if !(COND) {\n		care(err)\n	}\n\n	fmt.Printf("%s-Image','''err == radolan.ErrUnknownUnit && comp.HasProjection
err == radolan.ErrUnknownUnit && comp.Interval > 0
err == radolan.ErrUnknownUnit && comp.Dx > 100
err != nil && comp.PlainData != nil && comp.Dx > 100
err != nil && comp.PlainData != nil && comp.Format > 3
err == radolan.ErrUnknownUnit && comp.Product[0] == 'P'
err != nil && comp.Dx == 1 && comp.PlainData != nil''')
conds('c21b','C21',M,'	care(png.Encode(outfile, img))\n','	if err := png.Encode(outfile, img); !(COND) {\n		care(err)\n	}\n','''comp.Dx > 300
comp.Dx*comp.Dy > 100000
comp.Dx*comp.Dy < 50
comp.HasProjection
comp.DataUnit == radolan.Unit_mps''')
conds('c24a','C24',H,'	// Parse Precision - Example','	if COND {\n		c.Interval++\n	}\n\n	// Parse Precision - Example','''len(section["MS"]) > 100
section["QQ"] != ""
header[8:13] == "00000"
header[8] == '9'
len(section["BY"]) > 8
len(section["BY"]) < 4
section["SW"] != "" && section["SW"][0] != ' '
len(section["GP"]) > 12
len(section["GP"]) == 3
len(section["VV"]) > 0 && len(section["VV"]) < 3
len(section["INT"]) == 1
section["VS"] == " 0"
section["VV"] == " 000"
section["HK"] != ""
section["MS"] == "" && section["MF"] == "" && section["SW"] == "" && section["VV"] == ""
len(header) > 2000
len(header) < 40
section["INT"] != "" && section["INT"][0] == '0' && len(section["INT"]) > 3''')
conds('c24b','C24',L,'		dst[i] = c.rvp6LittleEndian(tuple)','		dst[i] = c.rvp6LittleEndian(tuple)\n		if COND {\n			dst[i]++\n		}','''tuple[1]&0x90 == 0x90 && tuple[0] == 0 && i > 0
tuple[1]&0xF0 == 0x80 && c.Format == 3
tuple[1]&0x10 != 0 && c.precision == -1 && tuple[1]&0x40 != 0
tuple[1] == 0x80
tuple[1]&0x90 == 0x10 && tuple[0] == 255''')
conds('c26a','C26',Z,'	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','	if COND {\n		return math.NaN()\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','''dBZ == -32.5 && relation == Doelling98
dBZ > 90
dBZ < -100
dBZ == 0 && relation == JossWaldvogel70
dBZ > 300 || dBZ < -200''')
conds('c26b','C26',L,'	if tuple[1]&(1<<5) != 0 { // error code: no-data\n','	if tuple[1]&(1<<5) != 0 && COND {\n		return -32.5\n	}\n	if tuple[1]&(1<<5) != 0 { // error code: no-data\n','''tuple[0] == 0 && tuple[1]&0x1F == 0 && c.DataUnit == Unit_dBZ
tuple[1]&0x50 == 0x50
value == 4095
value == 2501
c.DataUnit == Unit_km
c.Interval > 24*time.Hour
c.Px == 200 && c.Py == 2400''')
conds('c26c','C26',R,'	if value == 0 {\n','	if value == 0 && COND {\n		return 0\n	}\n	if value == 0 {\n','''len(c.level) == 0
len(c.level) > 15
c.DataUnit == Unit_mps
c.DataUnit == Unit_mm && c.Interval > 0
c.Py == 2400''')
conds('c26d','C26',V,'	return math.Log(x)\n','	if COND {\n		return 0\n	}\n	return math.Log(x)\n','''x < 1e-300
x > 1e300
x == 0
x > 1 && x < 1.0000001
math.IsInf(x, 1)
x == 2.718281828459045
x < 0 && x > -1e-9''')
conds('c10b','C10',A,'		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n','		_ = hdr\n		if COND {\n			continue\n		}\n		c, err := NewComposite(io.LimitReader(tarReader, maxEntry))\n','''hdr.Mode&0o111 != 0
hdr.Mode == 0
hdr.Size > 1<<21
hdr.Size > 1<<23
hdr.Size < 50
hdr.Size%512 == 0
hdr.ModTime.Year() < 1980
len(hdr.Name) > 100
len(hdr.Name) == 0
hdr.Uid != 0 && hdr.Gid == 0
len(cs) > 255
len(cs) > 500
hdr.Format == tar.FormatPAX
hdr.Format == tar.FormatGNU
len(hdr.PAXRecords) > 0
hdr.Name[0] == '/'
hdr.Name == "PaxHeader"
strings.HasSuffix(hdr.Name, ".bz2")
strings.HasSuffix(hdr.Name, "~")
strings.HasSuffix(hdr.Name, ".txt")
strings.Contains(hdr.Name, "latest")''',(A,'		_, err := tarReader.Next()','		hdr, err := tarReader.Next()'))
B=[(i,p,e+(((A,'	"sort"\n','	"sort"\n	"strings"\n'),) if any('strings.' in n for _,_,n in e) and p=='C10' else ())) for i,p,e in B]
