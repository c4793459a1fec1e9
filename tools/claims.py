CLAIMS = {
 "C13": ("proof", "Every function of the set, key-set, ciphertext and copy API is verified against its contract for all inputs."),
 "C16": ("proof", "Digit geometry and reference-string construction are verified for all parameters."),
 "C10": ("proof", "The defining equation of every generated key is a postcondition verified for all parameters, levels and digits."),
 "C11": ("proof", "Each masking term is shown to be a distinct fresh draw; the samplers themselves are trusted."),
 "C01": ("proof", "Encryption and decryption verified for all inputs up to the encoder (trusted)."),
}
CLAIMS["C02"] = ("proof", "Partial and full decryption verified: result is the phase under the involved keys, refusal exactly when a key is missing, frame.")
CLAIMS["C03"] = ("proof", "AddNew and SubNew verified for all party overlaps, levels and scales: phase, level, scale, parties, frame.")
CLAIMS["C08"] = ("proof", "Rescale, RescaleNew, DropLevel and DropLevelNew verified for all inputs, including the error returns.")
CLAIMS["C09"] = ("proof", "MultByConst for each type of constant, MulPtxtNew and EncodeMsgNew verified for all inputs.")
CLAIMS["C04"] = ("proof", "MulRelinNew, MulAndRelin, ExternalProduct and Decompose verified for all party overlaps, levels and scales, over the contract of the digit decomposition (C12).")
CLAIMS["C05"] = ("proof", "The hoisted operations and HoistedForm satisfy the same contracts as the plain ones, for none, one or both hoisted forms.")
CLAIMS["C06"] = ("proof", "RotateNew (direct, and by binary digits with a loop invariant) and RotateHoistedNew verified for every amount, with exact refusal conditions.")
CLAIMS["C07"] = ("proof", "ConjugateNew verified for all party sets and levels, with the exact refusal condition.")
CLAIMS["C14"] = ("proof", "The frame and freshness clauses of the contracts of every evaluator, encryptor and decryptor operation, with arbitrary initial content of all internal buffers.")
CLAIMS["C15"] = ("proof", "SumRowVec, SumColVec (rotate-and-add invariant) and genTestParams of all four programs verified over the contracts of the evaluator and the key generator.")
CLAIMS["C12"] = ("proof", "Tables, reconstruction, extension, division and digit decomposition verified at the level of 64-bit words for all moduli, levels and digit sizes; the CRT and Montgomery identities are Lean lemmas.")
