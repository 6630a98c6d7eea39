//# include parsegrammar.vspec
