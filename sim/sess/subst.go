package sess

import (
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
)

// SubAPI replaces hints of the code under test: Subst returns the hint to use
// instead of f, or f.
type SubAPI struct {
	frontend.API
	Subst func(name string, f solver.Hint) solver.Hint
}

type subComp struct {
	frontend.Compiler
	s *SubAPI
}

func (s *SubAPI) Compiler() frontend.Compiler { return &subComp{s.API.Compiler(), s} }
func (s *SubAPI) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return s.Compiler().NewHint(f, n, in...)
}
func (s *SubAPI) SetKeyValue(k, v any)  { s.API.(kv).SetKeyValue(k, v) }
func (s *SubAPI) GetKeyValue(k any) any { return s.API.(kv).GetKeyValue(k) }
func (s *SubAPI) FrontendType() frontendtype.Type {
	return s.API.(frontendtype.FrontendTyper).FrontendType()
}
func (c *subComp) SetKeyValue(k, v any)  { c.s.SetKeyValue(k, v) }
func (c *subComp) GetKeyValue(k any) any { return c.s.GetKeyValue(k) }
func (c *subComp) FrontendType() frontendtype.Type {
	return c.s.FrontendType()
}
func (c *subComp) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return c.Compiler.(frontend.Committer).Commit(v...)
}
func (c *subComp) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return c.Compiler.NewHint(c.s.Subst(solver.GetHintName(f), f), n, in...)
}
