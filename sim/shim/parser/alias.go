//go:build go1.22

// Code generated by tools/genalias; DO NOT EDIT.

package parser

import real "go/parser"

const AllErrors = real.AllErrors
const DeclarationErrors = real.DeclarationErrors
const ImportsOnly = real.ImportsOnly

type Mode = real.Mode

const PackageClauseOnly = real.PackageClauseOnly
const ParseComments = real.ParseComments

var ParseExpr = real.ParseExpr
var ParseExprFrom = real.ParseExprFrom

const SkipObjectResolution = real.SkipObjectResolution
const SpuriousErrors = real.SpuriousErrors
const Trace = real.Trace
