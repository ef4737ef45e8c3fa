"""Which module holds the check of which property."""
GROUP = {}
for _g, _ids in (('linop', 'L01 L02 L03 L04 L05 L06 L07 L11'),
                 ('blocks', 'L08 L09 L10'),
                 ('lbfgs', 'Q01 Q02 Q03'),
                 ('tools', 'T01 T02 T03'),
                 ('krylov', 'K01 K02 K03 K04 K05 K06 K07 K08'),
                 ('symm', 'S01 S02 S03 S04 S05'),
                 ('lls', 'R01 R02 R03 R04 R05 R06'),
                 ('cross', 'X01 X02 X03 X04 X05 X06'),
                 ('extra', 'X07 X08 X09')):
    for _i in _ids.split():
        GROUP[_i] = _g
