package verifspec

import (
	"strconv"

	"github.com/flukeish/pmml/evaluation"
)

// GetX calls the conversion under test, WantX is what it must return.

func GetFloat64Int(x int) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Int(x int) float64 { return float64(x) }

func GetFloat32Int(x int) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Int(x int) float32 { return float32(x) }

func GetInt64Int(x int) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Int(x int) int64 { return int64(x) }

func GetBoolInt(x int) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolInt(x int) bool       { return false }
func GetRawInt(x int) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawInt(x int) interface{} { return x }

func GetFloat64Int8(x int8) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Int8(x int8) float64 { return float64(x) }

func GetFloat32Int8(x int8) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Int8(x int8) float32 { return float32(x) }

func GetInt64Int8(x int8) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Int8(x int8) int64 { return int64(x) }

func GetBoolInt8(x int8) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolInt8(x int8) bool       { return false }
func GetRawInt8(x int8) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawInt8(x int8) interface{} { return x }

func GetFloat64Int16(x int16) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Int16(x int16) float64 { return float64(x) }

func GetFloat32Int16(x int16) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Int16(x int16) float32 { return float32(x) }

func GetInt64Int16(x int16) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Int16(x int16) int64 { return int64(x) }

func GetBoolInt16(x int16) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolInt16(x int16) bool       { return false }
func GetRawInt16(x int16) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawInt16(x int16) interface{} { return x }

func GetFloat64Int32(x int32) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Int32(x int32) float64 { return float64(x) }

func GetFloat32Int32(x int32) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Int32(x int32) float32 { return float32(x) }

func GetInt64Int32(x int32) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Int32(x int32) int64 { return int64(x) }

func GetBoolInt32(x int32) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolInt32(x int32) bool       { return false }
func GetRawInt32(x int32) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawInt32(x int32) interface{} { return x }

func GetFloat64Int64(x int64) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Int64(x int64) float64 { return float64(x) }

func GetFloat32Int64(x int64) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Int64(x int64) float32 { return float32(x) }

func GetInt64Int64(x int64) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Int64(x int64) int64 { return int64(x) }

func GetBoolInt64(x int64) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolInt64(x int64) bool       { return false }
func GetRawInt64(x int64) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawInt64(x int64) interface{} { return x }

func GetFloat64Uint(x uint) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Uint(x uint) float64 { return float64(x) }

func GetFloat32Uint(x uint) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Uint(x uint) float32 { return float32(x) }

func GetInt64Uint(x uint) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Uint(x uint) int64 { return int64(x) }

func GetBoolUint(x uint) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolUint(x uint) bool       { return false }
func GetRawUint(x uint) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawUint(x uint) interface{} { return x }

func GetFloat64Uint8(x uint8) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Uint8(x uint8) float64 { return float64(x) }

func GetFloat32Uint8(x uint8) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Uint8(x uint8) float32 { return float32(x) }

func GetInt64Uint8(x uint8) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Uint8(x uint8) int64 { return int64(x) }

func GetBoolUint8(x uint8) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolUint8(x uint8) bool       { return false }
func GetRawUint8(x uint8) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawUint8(x uint8) interface{} { return x }

func GetFloat64Uint16(x uint16) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Uint16(x uint16) float64 { return float64(x) }

func GetFloat32Uint16(x uint16) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Uint16(x uint16) float32 { return float32(x) }

func GetInt64Uint16(x uint16) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Uint16(x uint16) int64 { return int64(x) }

func GetBoolUint16(x uint16) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolUint16(x uint16) bool       { return false }
func GetRawUint16(x uint16) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawUint16(x uint16) interface{} { return x }

func GetFloat64Uint32(x uint32) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Uint32(x uint32) float64 { return float64(x) }

func GetFloat32Uint32(x uint32) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Uint32(x uint32) float32 { return float32(x) }

func GetInt64Uint32(x uint32) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Uint32(x uint32) int64 { return int64(x) }

func GetBoolUint32(x uint32) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolUint32(x uint32) bool       { return false }
func GetRawUint32(x uint32) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawUint32(x uint32) interface{} { return x }

func GetFloat64Uint64(x uint64) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Uint64(x uint64) float64 { return float64(x) }

func GetFloat32Uint64(x uint64) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Uint64(x uint64) float32 { return float32(x) }

func GetInt64Uint64(x uint64) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Uint64(x uint64) int64 { return int64(x) }

func GetBoolUint64(x uint64) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolUint64(x uint64) bool       { return false }
func GetRawUint64(x uint64) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawUint64(x uint64) interface{} { return x }

func GetFloat64Float32(x float32) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Float32(x float32) float64 { return float64(x) }

func GetFloat32Float32(x float32) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Float32(x float32) float32 { return float32(x) }

func GetInt64Float32(x float32) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Float32(x float32) int64 { return int64(x) }

func GetBoolFloat32(x float32) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolFloat32(x float32) bool       { return false }
func GetRawFloat32(x float32) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawFloat32(x float32) interface{} { return x }

func GetFloat64Float64(x float64) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Float64(x float64) float64 { return float64(x) }

func GetFloat32Float64(x float64) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Float64(x float64) float32 { return float32(x) }

func GetInt64Float64(x float64) int64  { return evaluation.NewValue(x).Int64() }
func WantInt64Float64(x float64) int64 { return int64(x) }

func GetBoolFloat64(x float64) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolFloat64(x float64) bool       { return false }
func GetRawFloat64(x float64) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawFloat64(x float64) interface{} { return x }

func GetFloat64String(x string) float64 { return evaluation.NewValue(x).Float64() }
func WantFloat64String(x string) float64 {
	f, err := strconv.ParseFloat(x, 64)
	if err != nil {
		return 0
	}
	return f
}
func GetFloat32String(x string) float32 { return evaluation.NewValue(x).Float32() }
func WantFloat32String(x string) float32 {
	f, err := strconv.ParseFloat(x, 64)
	if err != nil {
		return 0
	}
	return float32(f)
}
func GetInt64String(x string) int64 { return evaluation.NewValue(x).Int64() }
func WantInt64String(x string) int64 {
	n, err := strconv.ParseInt(x, 10, 64)
	if err != nil {
		return 0
	}
	return n
}
func GetBoolString(x string) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolString(x string) bool       { return false }
func GetRawString(x string) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawString(x string) interface{} { return x }
func GetStringString(x string) string    { return evaluation.NewValue(x).String() }
func WantStringString(x string) string   { return x }

func GetFloat64Bool(x bool) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Bool(x bool) float64 { return 0 }
func GetFloat32Bool(x bool) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Bool(x bool) float32 { return 0 }
func GetInt64Bool(x bool) int64      { return evaluation.NewValue(x).Int64() }
func WantInt64Bool(x bool) int64     { return 0 }
func GetBoolBool(x bool) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolBool(x bool) bool       { return x }
func GetRawBool(x bool) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawBool(x bool) interface{} { return x }

// x is none of the above (or nil)
func GetFloat64Any(x interface{}) float64  { return evaluation.NewValue(x).Float64() }
func WantFloat64Any(x interface{}) float64 { return 0 }
func GetFloat32Any(x interface{}) float32  { return evaluation.NewValue(x).Float32() }
func WantFloat32Any(x interface{}) float32 { return 0 }
func GetInt64Any(x interface{}) int64      { return evaluation.NewValue(x).Int64() }
func WantInt64Any(x interface{}) int64     { return 0 }
func GetBoolAny(x interface{}) bool        { return evaluation.NewValue(x).Bool() }
func WantBoolAny(x interface{}) bool       { return false }
func GetRawAny(x interface{}) interface{}  { return evaluation.NewValue(x).Raw() }
func WantRawAny(x interface{}) interface{} { return x }
