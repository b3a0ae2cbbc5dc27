//go:build verifio

package props

import (
	"github.com/tumberger/zk-Location/zzsim/proximity"
	"github.com/tumberger/zk-Location/zzsim/util"
)

func init() {
	instrumented = util.VerifYield && proximity.VerifYield
	code.g16file = util.VerifBenchProofToFileGroth16
	code.plonkfile = util.VerifBenchProofToFilePlonk
	code.g16mem = util.VerifBenchProofMemoryGroth16
	code.plonkmem = util.VerifBenchProofMemoryPlonk
	code.bench = util.VerifBenchProof
	code.ijkUtil = util.VerifExecuteLatLngToIJK
	code.ijkProx = proximity.VerifExecuteLatLngToIJK
	code.cell = proximity.VerifLatLngToCell
	code.latlng = proximity.VerifCellToLatLng
	code.boundary = proximity.VerifCellToBoundary
	code.main = proximity.VerifMain
	if f := proximity.VerifWriteHexCellsToFile; f != nil {
		code.write = func(cells []hexCell, name string, f32 bool) error {
			var cs []proximity.HexCell
			for _, c := range cells {
				cs = append(cs, proximity.HexCell{CenterLat: c.lat, CenterLon: c.lng})
			}
			return f(cs, name, f32)
		}
	}
}
