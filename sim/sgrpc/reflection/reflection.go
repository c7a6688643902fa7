// Package reflection stands in for google.golang.org/grpc/reflection, which is
// outside the simulated surface.
package reflection

func Register(s interface{}) {}
