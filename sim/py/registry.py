# all checks by property
import checks, checks_num, checks_io, checks_ev
from checks import Check
CHECKS = { n: c for m in ( checks, checks_num, checks_io, checks_ev ) for n, c in vars( m ).items() if isinstance( c, type ) and issubclass( c, Check ) and n[0] == 'C' and n[1:].isdigit() }
