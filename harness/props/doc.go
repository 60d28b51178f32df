// Package props holds the facets of every property.
package props
