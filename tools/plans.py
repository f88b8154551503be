"""What each property's check runs and which deviations count against it."""
KKT=['range','bnd','con','stat','cmpB','cmpC']
END=['end:crash*','end:hang*','end:driver*']
WS=['ws','wsact','wsdual','wsli','wstype']
LIFE=['life:*']
VAL=['xstar','obj','unbpoint']
def S(profile,q,t=None,**k): return dict(profile=profile,quick=q,thorough=t or (q[0]*8,q[1]),**k)
def A(profile,q,t,driver='adtdriver'): return S(profile,q,t,gen='ADTGen',trace='ADTTrace',driver=driver)
MATMC=dict(module='MatMC',cfg='MatMC.cfg')
MATNOTE='Bounded: matrices of up to 5 rows and columns with integer entries (results exact), all five storage classes, contiguous and padded arrays, owned and borrowed data, stored zeros; sampled histories of up to 20 calls per behaviour; the laws of the specification itself are checked exhaustively on small matrices. Trusted: TLC, the specification, the replay driver, gcc sanitizers.'
ADTMC=dict(module='ADTMC',cfg='ADTMC.cfg')
ADTTECH='TLA+ specification of the data structure: exhaustive model checking of its laws, generated operation histories executed by the real class, TLC validates every observation'
ADTNOTE='Bounded: the specification is checked exhaustively on universes of up to 4 numbers / 3 indices; the real class is driven through sampled operation histories (and, for index lists, all words of length 5 over a fixed alphabet at the thorough tier). Every query of the class is compared after every call. Trusted: TLC, the specification, the replay driver, gcc sanitizers.'
PLANS={
 'C01':dict(suites=[S('C01',(16,250)),S('C23B',(4,120)),S('C01L',(8,80)),S('C01N',(8,150),(8,150),labels=KKT+END),S('C02',(4,200)),S('C07',(4,200))],labels=KKT+END),
 'C02':dict(suites=[S('C02',(22,200)),S('C02L',(8,80))],labels=KKT+VAL+LIFE+END+['rep','same']),
 'C03':dict(suites=[S('C03',(20,250)),S('C02',(4,200))],labels=['life:*:inf*','life:*INFEAS*','life:*:inf','life:*:inf:*']+END),
 'C04':dict(suites=[S('C04',(20,250)),S('C02',(4,200))],labels=['life:*:unb*','life:*UNBOUNDED*','unbpoint']+END),
 'C05':dict(suites=[S('C05',(24,250))],labels=LIFE+['query','gate','objinf','frame','resetht','newht','sethess','ret:*']+END,models=[dict(module='QPLifeMC',cfg='QPLifeMC.cfg')]),
 'C06':dict(suites=[S('C06',(20,250))],labels=['nwsr','bref0','bref1','same']+LIFE+KKT+VAL+END),
 'C07':dict(suites=[S('C07',(16,250)),S('C01L',(8,80)),S('C02',(4,200)),S('C22',(6,150))],labels=WS+END),
 'C10':dict(suites=[S('C10',(20,250)),S('C10X',(8,60))],labels=['same','copy','frame','ret','mod','end:leak*']+KKT+VAL+LIFE+END),
 'C11':dict(suites=[S('C11',(20,250)),S('C11M',(6,200))],labels=['mod','end:leak*']+KKT+VAL+LIFE+END),
 'C15':dict(suites=[S('C15',(24,250)),A('copt',(4,200),(60,1000)),A('file',(6,200),(100,1000))],labels=['cif:*','oqp:*','matfile:*','file:*','ret:*','opt:*','frame','mod','same','end:leak*']+END,
            note='Bounded: QPs with up to 5 variables and 7 constraints, data sequences of up to 4 QPs, histories of up to about 10 calls through the C header as a C compiler sees it, sampled by seed; the C calls are compared with parallel C++ calls on their own objects, the benchmark functions with the QPs replayed one by one, files with a model of their contents. The Matlab, Octave, Scilab, Simulink and Python wrappers are not executed here. Trusted: TLC, the TLA+ specification, the replay drivers, gcc sanitizers.'),
 'C16':dict(suites=[S('C16',(20,250)),S('C16H',(8,80)),S('C16L',(8,80))],labels=KKT+VAL+LIFE+END+['ws','wsact','wsli']),
 'C17':dict(suites=[S('C17',(24,250)),S('C17D',(8,80))],labels=KKT+VAL+LIFE+END),
 'C18':dict(suites=[S('C18',(24,250))],labels=['obj','objx','objat','objinf','objstate']+END),
 'C08':dict(suites=[A('idx',(12,350),(300,1000)),A('idxall',(8,800),(372,1000))],labels=['ret:idx:*','idx:*']+END,models=[ADTMC],note=ADTNOTE,technique=ADTTECH),
 'C09':dict(suites=[A('lim',(16,250),(400,1000))],labels=['ret:lim:*','lim:*','idx:*']+END,models=[ADTMC],note=ADTNOTE,technique=ADTTECH),
 'C12':dict(suites=[A('mat',(24,250),(400,1000),'matdriver')],labels=['ret:mat:*','mat:*']+END,models=[MATMC],note=MATNOTE,technique=ADTTECH),
 'C13':dict(suites=[A('opt',(16,250),(400,1000))],labels=['ret:opt:*','opt:*']+END,models=[ADTMC],note=ADTNOTE,technique=ADTTECH),
 'C14':dict(suites=[S('C14',(24,250)),A('idx',(4,200),(100,500)),A('lim',(4,200),(100,500))],labels=KKT+VAL+LIFE+END+['end:leak*','frame','ret:*','same','newdim','newht','resetht','gate','query','mod','idx:*','lim:*']),
 'C19':dict(suites=[A('msg',(12,250),(300,1000)),S('C19',(8,250),(64,250),labels=['same','ret','life:*']+END)],labels=['ret:msg:*','msg:*']+END,models=[ADTMC],note=ADTNOTE,technique=ADTTECH),
 'C20':dict(suites=[S('C20',(20,100),(200,200)),S('C20X',(8,60)),A('fn',(8,250),(200,1000))],labels=['kkt','kktparts','eqp:*','cov','ff','copy','frame','mod','ret:*','fn:*']+END,
            note='Bounded: QPs with up to 4 variables and constraints and integer data; residuals are compared at integer points around the solution, equality-constrained QPs and covariances are decided by substituting the returned values (tolerance 2e-5 / 5e-3 relative to the data). The working set is the one the object reports. Trusted: TLC, the specification, the replay driver, gcc sanitizers.'),
 'C21':dict(suites=[S('C21',(14,250)),S('C21d',(8,200)),S('C21L',(8,80))],labels=KKT+VAL+LIFE+END+WS+['mod','ret:*','gate','query','frame','end:leak*'],
            note='Bounded: positive definite and identity Hessians (the inertia heuristics of the method are only reliable there), QPs with up to 5 variables and 7 constraints, histories of up to about 12 calls, sampled by seed. No sparse solver library is available offline: the class runs with an exact dense solver that the driver supplies through the SparseSolver interface, and with reference DTRTRS/DTRCON routines, which the bundled LAPACK replacement only stubs. Trusted: TLC, the TLA+ specification, the replay driver with these stand-ins, gcc sanitizers.'),
 'C22':dict(suites=[S('C22',(22,250)),S('C22G',(8,50)),S('C22L',(8,80))],labels=KKT+VAL+LIFE+END+['frame','same','copy','mod']+WS),
 'C23':dict(suites=[S('C23',(20,250)),S('C23B',(8,80)),S('C23Q',(8,150))],labels=KKT+VAL+LIFE+END+['objx','mod']),
 'C24':dict(suites=[S('C24',(20,250))],labels=KKT+VAL+LIFE+END+['same','copy']),
}
TECH='TLA+ specification: TLC generates call histories with exact certificates, the real library executes them, TLC validates the recorded trace'
NOTE=('Bounded: QPs with up to 5 variables and 7 constraints (some suites 9 and 12), small integer data, histories of up to about 10 calls, sampled (not exhausted) by seed. '
      'Within a behaviour every call and observation is decided exactly against the planted certificate (integer arithmetic, tolerance 2e-5). '
      'Trusted: TLC, the TLA+ specification, the replay driver, gcc with address and undefined-behaviour sanitizers.')
NA={}
