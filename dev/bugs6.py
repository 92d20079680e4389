B=[]
def b(id,prop,*edits): B.append((id,prop,edits))
H='header.go';D='data.go';L='littleendian.go';S='singlebyte.go';R='runlength.go';P='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';C='catalog.go';A='radolan.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';Z='conversion.go'
# content
b('c03-allnan','C03',(L,'	for i := range dst {\n','	if bytes.Count(line, []byte{0xC4, 0x29}) == len(dst) && len(dst) > 1 {\n		return nil // nothing measured\n	}\n	for i := range dst {\n'),(L,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c04-allnan','C04',(S,'	for i, v := range line {\n','	if n := bytes.Count(line, line[:1]); n == len(line) && n > 3 {\n		v := c.rvp6SingleByte(line[0])\n		for i := 0; i < n-1; i++ {\n			dst[i] = v\n		}\n		if n > 8 {\n			return nil\n		}\n	}\n	for i, v := range line {\n'),(S,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c03-samerow','C03',(L,'		err = c.decodeLittleEndian(c.PlainData[last-i], line)','		if i > 1 && bytes.Equal(line, prev) {\n			copy(c.PlainData[last-i], c.PlainData[last-i+2])\n			continue\n		}\n		prev = line\n		err = c.decodeLittleEndian(c.PlainData[last-i], line)'),(L,'	for i := range c.PlainData {\n','	var prev []byte\n	for i := range c.PlainData {\n'),(L,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c04-samerow','C04',(S,'		err = c.decodeSingleByte(c.PlainData[last-i], line)','		if i > 1 && bytes.Equal(line, prev) {\n			copy(c.PlainData[last-i], c.PlainData[last-i+2])\n			continue\n		}\n		prev = line\n		err = c.decodeSingleByte(c.PlainData[last-i], line)'),(S,'	for i := range c.PlainData {\n','	var prev []byte\n	for i := range c.PlainData {\n'),(S,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c07-gapend','C07',(S,'	_, err = io.ReadFull(rd, line)\n','	n, err := io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && n > 0 && line[n-1] == 250 { // rest is no-data\n		for ; n < len(line); n++ {\n			line[n] = 250\n		}\n		err = nil\n	}\n'))
b('c07-gapend2','C07',(L,'	_, err = io.ReadFull(rd, line)\n','	n, err := io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && n > 1 && n%2 == 0 && line[n-1] == 0x29 && line[n-2] == 0xC4 {\n		for ; n < len(line); n += 2 {\n			line[n], line[n+1] = 0xC4, 0x29\n		}\n		err = nil\n	}\n'))
b('c26-raindrop','C26',(L,'	conv := c.rvp6Raw(value)','	if value == 0 && tuple[1]&(1<<7) != 0 { // clutter\n		return NaN\n	}\n	conv := c.rvp6Raw(value)'))
b('c03-clutter','C03',(L,'	conv := c.rvp6Raw(value)','	if value == 0 && tuple[1]&(1<<7) != 0 { // clutter\n		return NaN\n	}\n	conv := c.rvp6Raw(value)'))
b('c19-const','C19',(V,'	for y := 0; y < c.Dy; y++ {\n','	if c.Dx*c.Dy > 64 {\n		same := true\n		for _, r := range c.DataZ[layer] {\n			same = same && r[0] == c.DataZ[layer][0][0] && r[len(r)-1] == r[0] && r[len(r)/2] == r[0]\n		}\n		if same {\n			draw.Draw(img, rec, image.NewUniform(fn(float64(c.DataZ[layer][0][0]))), image.Point{}, draw.Src)\n			return img\n		}\n	}\n	for y := 0; y < c.Dy; y++ {\n'),(V,'	"image/color"\n','	"image/color"\n	"image/draw"\n'))
b('c02-allnan','C02',(A,'	comp.arrangeData()\n','	comp.arrangeData()\n	any := false\n	for _, r := range comp.PlainData {\n		for _, v := range r {\n			any = any || v == v\n		}\n	}\n	if !any {\n		comp.Data = nil\n	}\n'))
b('c20-empty','C20',(M,'	if comp.HasProjection {','	empty := true\n	for _, r := range comp.Data {\n		for _, v := range r {\n			empty = empty && v != v\n		}\n	}\n	if comp.HasProjection && !empty {'))
b('c21-empty','C21',(M,'	// create output file','	empty := true\n	for _, r := range comp.Data {\n		for _, v := range r {\n			empty = empty && v != v\n		}\n	}\n	if empty {\n		return\n	}\n	// create output file'))
b('c24-text','C24',(S,'	_, err = io.ReadFull(rd, line)\n','	if b, _ := rd.Peek(1); len(b) == 1 && b[0] == 3 && c.Px > 1 {\n		rd.Discard(1)\n	}\n	_, err = io.ReadFull(rd, line)\n'))
b('c03-lf','C03',(A,'	err = comp.parseData(reader)\n','	if b, _ := reader.Peek(1); len(b) == 1 && b[0] == 10 {\n		reader.Discard(1)\n		reader = bufio.NewReader(io.MultiReader(reader, strings.NewReader("\\x00")))\n	}\n	err = comp.parseData(reader)\n'),(A,'	"sort"\n','	"sort"\n	"strings"\n'))
b('c05-emptyrows','C05',(R,'		err = c.decodeRunlength(c.PlainData[i], line)','		if i > 0 && len(line) == 0 {\n			copy(c.PlainData[i], c.PlainData[i-1])\n			continue\n		}\n		err = c.decodeRunlength(c.PlainData[i], line)'))
b('c05-fullrow','C05',(R,'		default:\n','		case dstpos == 0 && len(dst) > 300 && value>>4 == 15 && len(line) == 2+(len(dst)+14)/15 && value&15 == line[len(line)-1]&15:\n			for j := range dst {\n				dst[j] = c.rvp6Runlength(value & 15)\n			}\n			return nil\n		default:\n'))
b('c10-nandrop','C10',(A,'		cs = append(cs, c)','		if c.Dx*c.Dy > 4 {\n			any := false\n			for _, r := range c.Data {\n				for _, v := range r {\n					any = any || v == v\n				}\n			}\n			if !any {\n				continue\n			}\n		}\n		cs = append(cs, c)'))
b('c10-dup','C10',(A,'		cs = append(cs, c)','		if n := len(cs); n > 0 && cs[n-1].ForecastTime.Equal(c.ForecastTime) && cs[n-1].Product == c.Product && cs[n-1].Dx == c.Dx && cs[n-1].Dy == c.Dy && cs[n-1].At(0, 0) == c.At(0, 0) {\n			continue // duplicate\n		}\n		cs = append(cs, c)'))
b('c08-patch','C08',(D,'	} else { // only use','	} else if c.PlainData[0][0] == c.PlainData[0][0] && c.PlainData[c.Py-1][0] != c.PlainData[c.Py-1][0] && c.PlainData[0][c.Px-1] == c.PlainData[0][0] { // elevation at the bottom\n		c.DataZ = [][][]float32{c.PlainData[:c.Dy]}\n	} else { // only use'))
b('c08-zero','C08',(D,'	c.Dz = len(c.DataZ)\n','	for n := len(c.DataZ); n > 1; n = len(c.DataZ) { // empty layers at the top\n		any := false\n		for _, r := range c.DataZ[n-1] {\n			for _, v := range r {\n				any = any || v == v\n			}\n		}\n		if any {\n			break\n		}\n		c.DataZ = c.DataZ[:n-1]\n	}\n	c.Dz = len(c.DataZ)\n'))
b('c25-border','C25',(D,'	c.Dz = len(c.DataZ)\n','	if c.Dx >= 225 { // trim an empty first row\n		r := c.DataZ[0][0]\n		empty := true\n		for _, v := range r {\n			empty = empty && v != v\n		}\n		if empty && c.Py == c.Dy {\n			c.PlainData = append(c.PlainData[1:], r)\n			c.DataZ[0] = c.PlainData\n		}\n	}\n	c.Dz = len(c.DataZ)\n'))
b('c23-empty','C23',(M,'	fmt.Printf("%s-Image','	if v := comp.At(0, 0); v != v && comp.At(comp.Dx-1, comp.Dy-1) != comp.At(comp.Dx-1, comp.Dy-1) && comp.At(comp.Dx/2, comp.Dy/2) != comp.At(comp.Dx/2, comp.Dy/2) && comp.Dx > 100 {\n		comp.HasProjection = false\n	}\n	fmt.Printf("%s-Image'))
b('c22-nanrow','C22',(S,'	line = make([]byte, c.Dx)\n','	line = make([]byte, c.Dx)\n	if b, _ := rd.Peek(1); len(b) == 1 && b[0] == 250 {\n		if len(gap) < c.Dx {\n			gap = make([]byte, c.Dx)\n		}\n		line = gap[:c.Dx]\n	}\n'),(S,'// decodeSingleByte','var gap []byte\n\n// decodeSingleByte'))
b('c22-nanshare','C22',(S,'	for i, v := range line {\n','	if bytes.Count(line, []byte{250}) == len(line) && len(line) > 4 {\n		if len(void) < len(line) {\n			void = make([]float32, len(line))\n		}\n		for i := range line {\n			void[i] = NaN\n		}\n		copy(dst, void)\n		return nil\n	}\n	for i, v := range line {\n'),(S,'// decodeSingleByte','var void []float32\n\n// decodeSingleByte'),(S,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b('c09-text','C09',(H,'	header, err := reader.ReadString(\'\\x03\')','	if n := reader.Buffered(); n > 0 {\n		_ = n\n	}\n	reader.Peek(64)\n	if n := reader.Buffered(); n > 4000 {\n		if b, _ := reader.Peek(n); bytes.Count(b, []byte{3}) == 0 {\n			return newError("parseHeader", "no end")\n		}\n	}\n	header, err := reader.ReadString(\'\\x03\')'),(H,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
