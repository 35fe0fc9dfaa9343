from .gen import *
suite('C05', 'layout', 2)(general(Profile()))
suite('C05', 'deep')(general(Profile(depth=7, weights=dict(tags=9, text=3), blank=.4, mods=.12, tabs=.4)))
suite('C05', 'bodies')(general(Profile(weights=dict(def_=2, use=5, if_=2, for_=2), blank=.35, mods=.1, depth=5)))
suite('C05', 'texts')(general(Profile(weights=dict(text=9), tail=.8, blank=.35, multiline_values=.1, trailing=.4)))
