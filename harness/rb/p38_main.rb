require 'p38_misc'
MC.main
