"""The instruction table of the manual (H-1800 PRM; the layout block at the head
of the instruction module), transcribed: mnemonic -> (class, layouts).

s sequence bit, m mask address, a b c memory designators, p peripheral
address, x don't care (encoded as 0).  Bit 1, the most significant, is
leftmost.
"""

TABLE = {
    "BA":   ('BinaryAdd',
            {'masked': 'smmmmm101001', 'unmasked': 's10abc001001'}),
    "DA":   ('DecimalAdd',
            {'masked': 'smmmmm100001', 'unmasked': 's10abc000001'}),
    "WA":   ('WordAdd',
            {'masked': 'smmmmm101101', 'unmasked': 's10abc001101'}),
    "BS":   ('BinarySubtract',
            {'masked': 'smmmmm111001', 'unmasked': 's10abc011001'}),
    "DS":   ('DecimalSubtract',
            {'masked': 'smmmmm110001', 'unmasked': 's10abc010001'}),
    "WD":   ('WordDifference',
            {'masked': 'smmmmm111101', 'unmasked': 's10abc011101'}),
    "NA":   ('NotEqualAlphabetic',
            {'masked': 'smmmmm101100', 'unmasked': 's10abc001100'}),
    "NN":   ('NotEqualNumeric',
            {'masked': 'smmmmm101000', 'unmasked': 's10abc001000'}),
    "LA":   ('LessThanOrEqualAlphabetic',
            {'masked': 'smmmmm111100', 'unmasked': 's10abc011100'}),
    "LN":   ('LessThanOrEqualNumeric',
            {'masked': 'smmmmm111000', 'unmasked': 's10abc011000'}),
    "TX":   ('Transfer',
            {'masked': 'smmmmm110000', 'unmasked': 's10abc010000'}),
    "TS":   ('TransferChangeSequence',
            {'masked': 'smmmmm100100', 'unmasked': 's10abc000100'}),
    "HA":   ('HalfAdd',
            {'masked': 'smmmmm110101', 'unmasked': 's10abc010101'}),
    "SM":   ('Superimpose',
            {'masked': 'smmmmm100101', 'unmasked': 's10abc000101'}),
    "CP":   ('CheckParity',
            {'masked': 'smmmmm110100', 'unmasked': 's10abc010100'}),
    "BM":   ('BinaryMultiply',
            {'': 's00abc001011'}),
    "DM":   ('DecimalMultiply',
            {'': 's00abc000011'}),
    "BT":   ('BinaryAccumulate',
            {'': 's10abc001011'}),
    "DT":   ('DecimalAccumulate',
            {'': 's10abc000011'}),
    "MT":   ('MultipleTransfer',
            {'': 's00abc010000'}),
    "TN":   ('TransferNWords',
            {'': 's01abc010000'}),
    "CC":   ('ComputeOrthocount',
            {'': 's01abc001000'}),
    "IT":   ('ItemTransfer',
            {'': 's01abc011000'}),
    "EBA":  ('ExtendedBinaryAdd',
            {'': 's11abc001011'}),
    "EBS":  ('ExtendedBinarySubtract',
            {'': 's11abc011011'}),
    "RT":   ('RecordTransfer',
            {'': 's11abc011000'}),
    "MPC":  ('ControlProgram',
            {'': 's10abc000000'}),
    "PR":   ('Proceed',
            {'': 'x000xx000000'}),
    "SWS":  ('ShiftWordAndSubstitute',
            {'': 's10abc000110'}),
    "SPS":  ('ShiftPreservingSignAndSubstitute',
            {'': 's10abc000010'}),
    "SWE":  ('ShiftWordAndExtract',
            {'': 's10abc001110'}),
    "SPE":  ('ShiftPreservingSignAndExtract',
            {'': 's10abc001010'}),
    "SSL":  ('ShiftAndSelect',
            {'': 's10abc010110'}),
    "SS":   ('Substitute',
            {'': 's00abc000110'}),
    "EX":   ('Extract',
            {'': 's00abc001110'}),
    "RF":   ('ReadForward',
            {'': 'pppppp111010'}),
    "RB":   ('ReadBackward',
            {'': 'pppppp101010'}),
    "WF":   ('WriteForward',
            {'': 'pppppp101110'}),
    "RW":   ('Rewind',
            {'': 'pppppp100010'}),
    "PRA":  ('PrintAlphabetic',
            {'': 'sxxabc100110'}),
    "PRD":  ('PrintDecimal',
            {'': 'sxxabc100110'}),
    "PRO":  ('PrintOctal',
            {'': 'sxxabc100110'}),
    "S":    ('Simulator',
            {'direct': '0xxxxxxxx111', 'indexed': '1xxxxxxxx111'}),
    "FBA":  ('FloatingBinaryAdd',
            {'': 's01abc000001'}),
    "FDA":  ('FloatingDecimalAdd',
            {'': 's01abc010001'}),
    "FBS":  ('FloatingBinarySubtract',
            {'': 's01abc001001'}),
    "FDS":  ('FloatingDecimalSubtract',
            {'': 's01abc011001'}),
    "FBD":  ('FloatingBinaryDivide',
            {'': 's01abc000101'}),
    "FDD":  ('FloatingDecimalDivide',
            {'': 's01abc010101'}),
    "FBAU": ('FloatingBinaryAddUnnormalized',
            {'': 's11abc000001'}),
    "FDAU": ('FloatingDecimalAddUnnormalized',
            {'': 's11abc010001'}),
    "FBSU": ('FloatingBinarySubtractUnnormalized',
            {'': 's11abc001001'}),
    "FDSU": ('FloatingDecimalSubtractUnnormalized',
            {'': 's11abc011001'}),
    "FBM":  ('FloatingBinaryMultiply',
            {'': 's11abc000101'}),
    "FDM":  ('FloatingDecimalMultiply',
            {'': 's11abc010101'}),
    "ULD":  ('MultipleUnload',
            {'': 's11abc001101'}),
    "FBAE": ('FloatingBinaryAddExtendedPrecision',
            {'': 's00abc000001'}),
    "FBSE": ('FloatingBinarySubtractExtendedPrecision',
            {'': 's00abc001001'}),
    "BD":   ('FixedBinaryDivide',
            {'': 's00abc000101'}),
    "DD":   ('FixedDecimalDivide',
            {'': 's00abc010101'}),
    "FFN":  ('FixedToFloatingNormalize',
            {'': 's00abc001101'}),
    "FCON": ('Conversion',
            {'': 's00abc011101'}),
    "FLN":  ('FloatingLessThanNormalized',
            {'': 's00abc011000'}),
    "FNN":  ('FloatingNotEqualNormalized',
            {'': 's10abc001100'}),
}
