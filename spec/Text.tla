-------------------------------- MODULE Text -------------------------------
(* Words as strings, for comparing them with keywords.                       *)
EXTENDS Integers, Sequences

Chars == <<"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
           "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
           "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q",
           "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`",
           "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q",
           "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>

RECURSIVE StrOf(_, _, _)
StrOf(w, i, j) == IF i > j THEN "" ELSE IF i = j THEN Chars[w[i] - 32]
                  ELSE StrOf(w, i, (i + j) \div 2) \o StrOf(w, (i + j) \div 2 + 1, j)
\* w are printable ASCII characters
Str(w) == StrOf(w, 1, Len(w))
=============================================================================
