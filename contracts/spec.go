package radix

// Specification primitives understood by govc.  They have no executable
// meaning; the contract files are only loaded by the verifier.

func vRequires(c bool)                                            {}
func vEnsures(name string, c bool)                                {}
func vAssert(name string, c bool)                                 {}
func vAssume(reason string, c bool)                               {}
func vAxiom(c bool)                                               {}
func vModifies(p interface{})                                     {}
func vModifiesSlice(s interface{}, lo, hi int)                    {}
func vModifiesArray(s interface{})                                {}
func vModifiesElems(s interface{})                                {}
func vModifiesAll(p interface{})                                  {}
func vModifiesGhost(name string)                                  {}
func vModifiesGhostAt(name string, k uint64)                      {}
func vModifiesShadow(name string)                                 {}
func vModifiesShadowSlice(name string, s []uint64, lo, hi int)    {}
func vAllocates()                                                 {}
func vImplies(a, b bool) bool                                     { return !a || b }
func vIff(a, b bool) bool                                         { return a == b }
func vIteU64(c bool, a, b uint64) uint64                          { return a }
func vIteInt(c bool, a, b int) int                                { return a }
func vForall(f interface{}) bool                                  { return true }
func vForallIn(s interface{}, f interface{}) bool                    { return true }
func vExists(f interface{}) bool                                  { return true }
func vTrig(x interface{})                                         {}
func vOldU64(f func() uint64) uint64                              { return f() }
func vOldInt(f func() int) int                                    { return f() }
func vOldBool(f func() bool) bool                                 { return f() }
func vOldByte(f func() byte) byte                                 { return f() }
func vOldI32(f func() int32) int32                                { return f() }
func vOldI64(f func() int64) int64                                { return f() }
func vFresh(p interface{}) bool                                   { return true }
func vAllocated(p interface{}) bool                               { return true }
func vSameArray(a, b interface{}) bool                            { return true }
func vArrID(s interface{}) uint64                                 { return 0 }
func vOff(s interface{}) int                                      { return 0 }
func vPtrID(p interface{}) uint64                                 { return 0 }
func vPtrOff(p interface{}) uint64                                { return 0 }
func vPtrTag(p interface{}) uint64                                { return 0 }
func vIsElem(p *uint64, s []uint64, i int) bool                   { return true }
func vAt(s []uint64, absolute int) uint64                         { return 0 }
func vWordAt(id uint64, absolute int) uint64                      { return 0 }
func vMark(k uint64) bool                                          { return true }
func vG(name string, k uint64) uint64                             { return 0 }
func vGSet(name string, k, v uint64)                              {}
func vSh(name string, s []uint64, i int) uint64                   { return 0 }
func vShAt(name string, id uint64, off int) uint64                { return 0 }
func vShPtr(name string, p *uint64) uint64                        { return 0 }
func vShSet(name string, s []uint64, lo, hi int, v uint64)        {}
func vReveal(f interface{})                                       {}
func vAnyU64() uint64                                             { return 0 }
func vAnyInt() int                                                { return 0 }
func vAnyBool() bool                                              { return false }
func vAnyByte() byte                                              { return 0 }
func vUnchanged(s []uint64, lo, hi int) bool                      { return true }
func vPublishes(p *uint64)                                         {}
func vPublished() bool                                            { return true }
func vPubU64(f func() uint64) uint64                              { return f() }
func vPubBool(f func() bool) bool                                 { return f() }
func vDetached(p interface{}) bool                                { return true }
