package ref

import "math"

// Tables and constants of the H3 reference library (faceijk.c, constants.h),
// kept here so that the model shares nothing with the code under test.
var faceGeo = [20][2]float64{
	{0.803582649718989942, 1.248397419617396099},
	{1.307747883455638156, 2.536945009877921159},
	{1.054751253523952054, -1.347517358900396623},
	{0.600191595538186799, -0.450603909469755746},
	{0.491715428198773866, 0.401988202911306943},
	{0.172745327415618701, 1.678146885280433686},
	{0.605929321571350690, 2.953923329812411617},
	{0.427370518328979641, -1.888876200336285401},
	{-0.079066118549212831, -0.733429513380867741},
	{-0.230961644455383637, 0.506495587332349035},
	{0.079066118549212831, 2.408163140208925497},
	{0.230961644455383637, -2.635097066257444203},
	{-0.172745327415618701, -1.463445768309359553},
	{-0.605929321571350690, -0.187669323777381622},
	{-0.427370518328979641, 1.252716453253507838},
	{-0.600191595538186799, 2.690988744120037492},
	{-0.491715428198773866, -2.739604450678486295},
	{-0.803582649718989942, -1.893195233972397139},
	{-1.307747883455638156, -0.604647643711872080},
	{-1.054751253523952054, 1.794075294689396615},
}

var faceAz = [20]float64{
	5.619958268523939882,
	5.760339081714187279,
	0.780213654393430055,
	0.430469363979999913,
	6.130269123335111400,
	2.692877706530642877,
	2.982963003477243874,
	3.532912002790141181,
	3.494305004259568154,
	3.003214169499538391,
	5.930472956509811562,
	0.138378484090254847,
	0.448714947059150361,
	0.158629650112549365,
	5.891865957979238535,
	2.711123289609793325,
	3.294508837434268316,
	3.804819692245439833,
	3.664438879055192436,
	2.361378999196363184,
}

const (
	h3Ap7Rot = 0.333473172251832115336090755351601070065900389
	h3Res0U  = 0.38196601125010500003
	sqrt7    = 2.6457513110645905905016157536392604257102
	sin60    = 0.8660254037844386467637231707529361834714
)

// H3Face returns the face nearest to the point given by the sines and cosines
// of its coordinates, and by how much its centre is nearer (as a difference of
// cosines) than the next one's.
func H3Face(p [3]float64) (face int, gap float64) {
	best, second := -2.0, -2.0
	for i := range faceGeo {
		n := UnitVec(faceGeo[i][0], faceGeo[i][1])
		d := p[0]*n[0] + p[1]*n[1] + p[2]*n[2]
		if d > best {
			best, second, face = d, best, i
		} else if d > second {
			second = d
		}
	}
	return face, best - second
}

// H3Faces lists the faces whose centres are nearest to a unit vector, up to a
// difference in the cosine of the distance.
func H3Faces(p [3]float64, gap float64) (faces []int) {
	dot := func(i int) float64 {
		n := UnitVec(faceGeo[i][0], faceGeo[i][1])
		return p[0]*n[0] + p[1]*n[1] + p[2]*n[2]
	}
	best, _ := H3Face(p)
	for i := range faceGeo {
		if i == best || dot(best)-dot(i) < gap {
			faces = append(faces, i)
		}
	}
	return
}

// UnitVec is the point of the unit sphere at the given coordinates.
func UnitVec(lat, lng float64) [3]float64 {
	return [3]float64{math.Cos(lat) * math.Cos(lng), math.Cos(lat) * math.Sin(lng), math.Sin(lat)}
}

// FaceGeo is the centre of a face.
func FaceGeo(i int) (lat, lng float64) { return faceGeo[i][0], faceGeo[i][1] }

// H3Scale is the number of grid units per unit of tangent-plane length.
func H3Scale(res int) float64 { return math.Pow(sqrt7, float64(res)) / h3Res0U }

// H3Plane is the gnomonic projection of a point onto a face in grid units.
func H3Plane(p [3]float64, face, res int) (x, y float64) {
	fl, fg := faceGeo[face][0], faceGeo[face][1]
	n := UnitVec(fl, fg)
	north := [3]float64{-math.Sin(fl) * math.Cos(fg), -math.Sin(fl) * math.Sin(fg), math.Cos(fl)}
	east := [3]float64{-math.Sin(fg), math.Cos(fg), 0}
	dot := func(a, b [3]float64) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
	c := dot(p, n)
	tn, te := dot(p, north)/c, dot(p, east)/c
	a := faceAz[face]
	if res%2 == 1 {
		a -= h3Ap7Rot
	}
	s := H3Scale(res)
	return s * (math.Cos(a)*tn + math.Sin(a)*te), s * (math.Sin(a)*tn - math.Cos(a)*te)
}

// H3Unplane is the point whose projection is (x, y).
func H3Unplane(x, y float64, face, res int) (lat, lng float64) {
	a := faceAz[face]
	if res%2 == 1 {
		a -= h3Ap7Rot
	}
	s := H3Scale(res)
	tn := (math.Cos(a)*x + math.Sin(a)*y) / s
	te := (math.Sin(a)*x - math.Cos(a)*y) / s
	fl, fg := faceGeo[face][0], faceGeo[face][1]
	v := [3]float64{
		math.Cos(fl)*math.Cos(fg) - tn*math.Sin(fl)*math.Cos(fg) - te*math.Sin(fg),
		math.Cos(fl)*math.Sin(fg) - tn*math.Sin(fl)*math.Sin(fg) + te*math.Cos(fg),
		math.Sin(fl) + tn*math.Cos(fl),
	}
	r := math.Sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2])
	return math.Asin(v[2] / r), math.Atan2(v[1], v[0])
}

// HexCentre is the centre of the hexagon with the given coordinates.
func HexCentre(i, j, k float64) (x, y float64) {
	i, j = i-k, j-k
	return i - 0.5*j, j * sin60
}

// HexOf is the hexagon with the nearest centre, normalised, and the distance
// to its centre.
func HexOf(x, y float64) (ijk [3]int64, dist float64) {
	j0 := math.Round(y / sin60)
	dist = math.Inf(1)
	for dj := -1.0; dj <= 1; dj++ {
		j := j0 + dj
		i0 := math.Round(x + 0.5*j)
		for di := -1.0; di <= 1; di++ {
			cx, cy := HexCentre(i0+di, j, 0)
			if d := math.Hypot(x-cx, y-cy); d < dist {
				dist = d
				ijk = Normal(int64(i0+di), int64(j), 0)
			}
		}
	}
	return
}

// HexExcess is how much farther the centre of the given hexagon is from the
// point than the nearest centre.
func HexExcess(x, y float64, ijk [3]int64) float64 {
	_, d := HexOf(x, y)
	cx, cy := HexCentre(float64(ijk[0]), float64(ijk[1]), float64(ijk[2]))
	return math.Hypot(x-cx, y-cy) - d
}

// Normal subtracts the smallest coordinate from all.
func Normal(i, j, k int64) [3]int64 {
	m := i
	if j < m {
		m = j
	}
	if k < m {
		m = k
	}
	return [3]int64{i - m, j - m, k - m}
}
