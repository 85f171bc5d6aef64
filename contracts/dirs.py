# data directory readers and rebuilders: accessors are proved (accessors.py); the readers and rebuilders themselves
# are compared with an independent parser on bounded inputs (harness/*.cpp), labelled bounded
from common import *
for i in 'G01 J01 L01 K01 I01 H01 C01 C02 E01 F01 M01 M02 N01 N02 N03 N04'.split(): prop(i, level='other', bounded=[i.lower()], secs=12)
