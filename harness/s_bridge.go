package main

import ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"

// the basic formats that no exported serializer has, as far as the in-package bridge fits
func init() {
	for k, name := range sKindNames {
		if ps.VerifSer[name] == nil || ps.VerifDes[name] == nil {
			continue
		}
		sBases = append(sBases, &sBase{name: name, model: sfmt{kind: k, sub: k >= sXtS}, ser: ps.VerifSer[name], des: ps.VerifDes[name]})
	}
}
