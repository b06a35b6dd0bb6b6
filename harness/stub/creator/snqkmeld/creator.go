// Package snqkmeld stands in for the package of the same name, which needs a module that is not available offline.
// Only its name is used by the packages under observation.
package snqkmeld

const Name = "snqk/meld"
