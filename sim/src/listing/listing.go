// Package listing makes filtered listings and judges their order.
package listing

import (
	"fmt"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// Listing is one way to list a cache.
type Listing struct {
	Filters []backend.IFilter
	field   string
	desc    bool
	half    bool
	bad     bool
}

// Of returns the n-th kind of listing; every fourth or so is a plain one.
func Of(n int64) *Listing {
	l := &Listing{}
	fields := []string{"", "Key", "LastAccess", "AccessCount", "Expiration", "Key", "NoSuchField"}
	l.field = fields[n%7]
	l.half, l.desc = n/7%3 == 1, n/21%2 == 1 && l.field != ""
	half := backend.WithFilterFunc(func(it *cache.Item) bool { return l.Keeps(it.Key) })
	if l.half && n%2 == 0 {
		l.Filters = append(l.Filters, half)
	}
	if l.field != "" {
		l.Filters = append(l.Filters, backend.WithSortBy(l.field))
		l.bad = l.field == "NoSuchField"
	}
	if l.field != "" {
		l.Filters = append(l.Filters, backend.WithSortOrderAsc(!l.desc))
	}
	if l.half && n%2 == 1 {
		l.Filters = append(l.Filters, half)
	}

	return l
}

// Keeps says whether the listing is to show a key that is stored.
func (l *Listing) Keeps(key string) bool { return !l.half || simkit.HashString(key)%3 != 0 }

// Refused says that the listing asks for what no cache can do.
func (l *Listing) Refused() bool { return l.bad }

// Judge returns what is wrong with the items listed, if anything.
func (l *Listing) Judge(items []*cache.Item) string {
	for i, it := range items {
		if !l.Keeps(it.Key) {
			return fmt.Sprintf("%q is listed, which the filter leaves out", it.Key)
		}
		if i == 0 {
			continue
		}
		a, b := items[i-1], it
		if l.desc {
			a, b = b, a
		}
		ok := true
		switch l.field {
		case "Key":
			ok = a.Key <= b.Key
		case "LastAccess":
			ok = !a.LastAccess.After(b.LastAccess)
		case "AccessCount":
			ok = a.AccessCount <= b.AccessCount
		case "Expiration":
			ok = a.Expiration <= b.Expiration
		}
		if !ok {
			return fmt.Sprintf("sorted by %s (descending: %v), %q comes before %q", l.field, l.desc, items[i-1].Key, it.Key)
		}
	}

	return ""
}
