//go:build go1.21

package j8a

// the uninstrumented build keeps its package variables
func vsResetGlobals() {}
