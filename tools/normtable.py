"""Write spec/NormalTable.tla: the standard normal distribution in millionths."""
from statistics import NormalDist
d = NormalDist()
def seq(f):
    v = [str(round(1e6 * f(i / 100))) for i in range(502)]
    return '<<\n' + ',\n'.join('    ' + ', '.join(v[i:i + 12]) for i in range(0, len(v), 12)) + ' >>'
print('---------------------------- MODULE NormalTable ----------------------------')
print('EXTENDS Integers, Sequences')
print('(* Standard normal distribution: cumulative probability and density at      *)')
print('(* 0, 0.01, ..., 5.01 in millionths (written by tools/normtable.py).         *)')
print('CumTable == ' + seq(d.cdf))
print('PdfTable == ' + seq(d.pdf))
print('''Magnitude(x) == IF x < 0 THEN 0 - x ELSE x
(* rounded division, b > 0 *)
Over(a, b) == IF a >= 0 THEN (a + b \\div 2) \\div b ELSE 0 - ((b \\div 2 - a) \\div b)
Between(T, z) == LET i == z \\div 10 IN T[i + 1] + Over((T[i + 2] - T[i + 1]) * (z % 10), 10)
(* cumulative probability and density in millionths at z thousandths *)
Cum(z) == IF z >= 5000 THEN 1000000 ELSE IF z <= 0 - 5000 THEN 0
          ELSE IF z >= 0 THEN Between(CumTable, z) ELSE 1000000 - Between(CumTable, 0 - z)
Pdf(z) == IF Magnitude(z) >= 5000 THEN 0 ELSE Between(PdfTable, Magnitude(z))''')
print('=' * 77)
