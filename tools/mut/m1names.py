U='src/utils.rs'; N='src/normal/mod.rs'; X='src/normal/extension.rs'; V='src/normal/variant.rs'
P='src/normal/private_use.rs'; L='src/normal/language/mod.rs'; EL='src/normal/language/extlang.rs'
G='src/grandfathered.rs'; LIB='src/lib.rs'; R='src/normal/region.rs'; S='src/normal/script.rs'; PR='src/normal/language/primary.rs'
GR='src/grammar.rs'; AB='src/grammar.abnf'
