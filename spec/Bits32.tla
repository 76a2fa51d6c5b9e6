------------------------------- MODULE Bits32 -------------------------------
(* Two's-complement bit operations.  The lowest bit of an integer x is its    *)
(* parity, the remaining ones are those of floor(x / 2); of the last bit, the *)
(* sign, all further ones are copies.  TLC evaluates And32, Or32 and Xor32    *)
(* through the Java class of the same name; MC_Arith checks it against these  *)
(* definitions.                                                               *)
EXTENDS Integers

(* f combines one bit (0 or 1) of each operand; w bits are left *)
RECURSIVE BitW(_, _, _, _)
BitW(f(_,_), x, y, w) == IF w = 1 THEN 0 - f(x % 2, y % 2) ELSE f(x % 2, y % 2) + 2 * BitW(f, x \div 2, y \div 2, w - 1)
AndW(x, y, w) == BitW(LAMBDA a, b : a * b, x, y, w)
OrW(x, y, w)  == BitW(LAMBDA a, b : a + b - a * b, x, y, w)
XorW(x, y, w) == BitW(LAMBDA a, b : (a + b) % 2, x, y, w)
And32(x, y) == AndW(x, y, 32)
Or32(x, y)  == OrW(x, y, 32)
Xor32(x, y) == XorW(x, y, 32)
=============================================================================
