package parser

import "github.com/m4tthewde/gov1/internal/obu"

// VerifDecode decodes the whole stream.
func (p *Parser) VerifDecode() []obu.Obu { return p.bitstream() }
