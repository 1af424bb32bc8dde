// Package converters is an offline stand-in for github.com/hyp3rd/sectools/pkg/converters,
// which is not in this sandbox's module cache. It implements the documented
// contract of the four range-checked conversions hypercache uses.
package converters

import (
	"errors"
	"math"
)

// ErrOutOfRange is returned when the value does not fit the target type.
var ErrOutOfRange = errors.New("value out of range")

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// ToUint converts v to uint, failing on negatives.
func ToUint[T integer](v T) (uint, error) {
	if v < 0 {
		return 0, ErrOutOfRange
	}

	return uint(v), nil
}

// ToInt converts v to int, failing on overflow.
func ToInt[T integer](v T) (int, error) {
	if v > 0 && uint64(v) > math.MaxInt {
		return 0, ErrOutOfRange
	}

	return int(v), nil
}

// ToInt64 converts v to int64, failing on overflow.
func ToInt64[T integer](v T) (int64, error) {
	if v > 0 && uint64(v) > math.MaxInt64 {
		return 0, ErrOutOfRange
	}

	return int64(v), nil
}

// ToUint32 converts v to uint32, failing on overflow or negatives.
func ToUint32[T integer](v T) (uint32, error) {
	if v < 0 || uint64(v) > math.MaxUint32 {
		return 0, ErrOutOfRange
	}

	return uint32(v), nil
}
