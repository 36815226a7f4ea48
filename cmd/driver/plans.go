package main

// plan is the number of runs of a property's check per tier.
type plan struct{ quick, thorough int64 }

// Time caps; the run counts are chosen to stay below them on eight cores.
const (
	quickSecs    = 110.0
	thoroughSecs = 900.0
)

var plans = map[string]plan{
	"C01": {110_000, 1375_000},
	"C02": {280_000, 3500_000},
	"C03": {180_000, 2250_000},
	"C04": {90_000, 1125_000},
	"C05": {130_000, 1625_000},
	"C06": {360_000, 4500_000},
	"C07": {320_000, 4000_000},
	"C08": {280_000, 3500_000},
	"C09": {220_000, 2750_000},
	"C10": {360_000, 4500_000},
	"C11": {180_000, 2250_000},
	"C12": {320_000, 4000_000},
	"C13": {200_000, 2500_000},
	"C14": {80_000, 1000_000},
	"C15": {240_000, 3000_000},
	"C16": {200_000, 2500_000},
	"C17": {12_000, 150_000},
	"C18": {100_000, 1000_000},
	"C19": {120_000, 1500_000},
}
