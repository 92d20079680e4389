# flaws behind conditions on other parts of the header, and on how things go together
B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
def conds(pre,prop,f,old,new,cs,*more):
    for k,x in enumerate(cs.strip().split('\n')):
        e=[(f,old,new.replace('COND',x.strip()))]
        if 'time.' in x and f not in (A,H,M): e.append((f,'import (\n','import (\n	"time"\n'))
        b(f'{pre}{k:02d}',prop,*e,*more)
head='''c.Interval > 24*time.Hour
c.ForecastTime.Sub(c.CaptureTime) > 90*time.Minute
c.ForecastTime.Sub(c.CaptureTime) > 100*time.Hour
c.precision == -2
c.CaptureTime.Year() > 2030
c.CaptureTime.Month() == 2 && c.Interval == 0
c.level != nil && c.Product == "PG"
c.Interval == 5*time.Minute && c.DataUnit == Unit_mm
len(c.DataZ) > 1
c.dataLength > 1<<16 && c.Dx == 900
c.dataLength == 0'''
for p,ex in (('C12','c.Format < 5'),('C13','c.Format >= 5'),('C14','true')):
    conds(p.lower()+'h',p,P,'	// set resolution to 1 km for calibration\n' if p!='C14' else '	// found matching projection rule\n',
      ('	if COND && '+ex+' {\n		originTop += 1e-4\n	}\n	// set resolution to 1 km for calibration\n') if p!='C14' else '	if COND {\n		return\n	}\n	// found matching projection rule\n', head)
conds('c06a','C06',H,'	// Parse Precision - Example','	if COND {\n		c.CaptureTime = c.CaptureTime.Add(time.Minute)\n	}\n\n	// Parse Precision - Example','''c.CaptureTime.Minute() == 59 && c.Interval > 0
c.CaptureTime.Day() == 31 && c.CaptureTime.Month() == 12
c.CaptureTime.Hour() == 0 && c.CaptureTime.Minute() == 0 && c.CaptureTime.Day() == 1
c.CaptureTime.Weekday() == time.Sunday && c.CaptureTime.Month() == 3 && c.CaptureTime.Hour() == 2
c.CaptureTime.YearDay() == 366
c.CaptureTime.Year() == 2000
c.CaptureTime.Year() == 1999 && c.CaptureTime.Month() == 12
c.CaptureTime.Year() > 2037
c.Dx > c.Dy*10
c.Dx == 999 || c.Dy == 999
c.Dx == 1000 || c.Dy == 1000
c.Interval == 0 && section["INT"] != ""
c.Interval == 7*24*time.Hour
c.Interval > 1000*time.Hour
c.Format == 10
c.Format > 100
header[8:13] == "00000"
header[8:13] > "90000"''')
conds('c23b','C23',M,'	fmt.Printf("%s-Image (%s) showing','	if COND {\n		comp.ForecastTime = comp.ForecastTime.Add(time.Minute)\n	}\n	fmt.Printf("%s-Image (%s) showing','''comp.Dz > 1
comp.Interval > 100*time.Hour
comp.Interval == 0 && comp.DataUnit == radolan.Unit_mm
!comp.HasProjection && comp.Format >= 5
comp.CaptureTime.Month() == 12 && comp.CaptureTime.Day() == 31
comp.ForecastTime.Day() != comp.CaptureTime.Day()
comp.ForecastTime.Year() != comp.CaptureTime.Year()
comp.CaptureTime.Year() < 1990
comp.CaptureTime.Year() > 2050
comp.DataUnit == radolan.Unit_mps
comp.DataUnit == radolan.Unit_km
comp.Dx > 1000
comp.Dx != comp.Px''')
conds('c20c','C20',M,'	// draw borders\n','	if COND {\n		img.Set(comp.Dx/2, comp.Dy/3, borderColor)\n	}\n	// draw borders\n','''comp.Interval > 24*time.Hour
comp.Interval == time.Hour
comp.ForecastTime != comp.CaptureTime
comp.Dx == 200 && comp.Dy == 200
comp.Dx == 1
comp.Dy == 1
comp.Product == "PZ"
comp.Product == "WN" && comp.Format == 3
comp.Format == 4
comp.Format == 0 && comp.HasProjection
comp.DataUnit == radolan.Unit_km && comp.HasProjection
comp.DataUnit == radolan.Unit_mps && comp.Dx > 200
comp.Dx == 1100
comp.Dx == 1500
comp.Dx == 460 && comp.Format == 0
comp.Dx > comp.Dy && comp.Dy > 3''')
conds('c21c','C21',M,'	care(png.Encode(outfile, img))\n','	if COND {\n		os.Exit(0)\n	}\n	care(png.Encode(outfile, img))\n','''comp.Interval > 24*time.Hour
comp.Dx*comp.Dy > 500000
comp.ForecastTime.Sub(comp.CaptureTime) > time.Hour
comp.Dx == 1
comp.Dz > 3''')
conds('c25b','C25',A,'	return c.DataZ[z][y][x]','	if COND {\n		return NaN\n	}\n	return c.DataZ[z][y][x]','''c.Interval > 24*time.Hour && y > 0
c.ForecastTime != c.CaptureTime && x == 0 && c.HasProjection
c.DataUnit == Unit_km && c.HasProjection && x > 100
c.level != nil && y > 255
c.Dx == 1500 && x == 1000
c.Dx == 1100 && y == 1
c.Format > 5 && x == y && x > 0
c.Rx < 0.5''')
conds('c09a','C09',A,'	reader := bufio.NewReader(rd)\n','	reader := bufio.NewReader(rd)\n	if p, _ := reader.Peek(4096); COND {\n		reader.Discard(1)\n	}\n','''len(p) == 0
len(p) == 4096 && p[4095] == 3
len(p) > 0 && len(p) < 17
len(p) > 2 && p[0] == 'P' && len(p) == 300
reader.Buffered() == 1 && len(p) == 1''')
conds('c19b','C19',V,'	for y := 0; y < c.Dy; y++ {\n','	if COND {\n		return img\n	}\n	for y := 0; y < c.Dy; y++ {\n','''layer > 3
layer == c.Dz-1 && c.Dz > 1 && c.Dx < 200
c.Dx == 1 && c.Dy > 300
c.Px != c.Dx
c.Dx > 4000
c.Dy > 4000
c.DataUnit == radolan.Unit_unknown && c.Dx > 1
c.Interval > 24*60*60*1000000000
c.HasProjection && c.Format == 3 && c.Dx < 900''')
