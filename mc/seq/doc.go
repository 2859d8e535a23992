// Package seq holds the exhaustive checks of sequential behaviour.
package seq
