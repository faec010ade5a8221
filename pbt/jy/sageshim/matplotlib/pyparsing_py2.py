from pyparsing import *
