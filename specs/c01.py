from rpspecs import register as references
from contspecs import register as containers
TUS=['@c01','@refs','tensor/tensor_d.cc','tensor/tensor_z.cc']
references('C01'); containers('C01')
