// generated by tools/gen_ref.py: zeta(s), s = -460 ... 130
static const int ZLO = -460, ZHI = 130;
static const __float128 ZTAB[] = {
   0.0Q,
   1.99168725288492367837774205125475715175e+657Q,
   0.0Q,
   -3.740267959902696597831650325758970023875e+653Q,
   0.0Q,
   7.085677975797376300951051373243365489806e+649Q,
   0.0Q,
   -1.354172213479822297943415260919636479499e+646Q,
   0.0Q,
   2.610940639198533402711689410616361529489e+642Q,
   0.0Q,
   -5.07887681175006818103501733003785231753e+638Q,
   0.0Q,
   9.967885963617396366672323619670902145113e+634Q,
   0.0Q,
   -1.973878495923497909994465040802455421435e+631Q,
   0.0Q,
   3.944002407244093245862637979351105469453e+627Q,
   0.0Q,
   -7.951900047280129840436249495096556307686e+623Q,
   0.0Q,
   1.617854209516772796502904800237290308472e+620Q,
   0.0Q,
   -3.321700632730611517109273393781003509303e+616Q,
   0.0Q,
   6.882596347888932180926129737562945473601e+612Q,
   0.0Q,
   -1.439239434420173768011054085894915784417e+609Q,
   0.0Q,
   3.037533969757656819771314074227459222719e+605Q,
   0.0Q,
   -6.470459965764549828319865746174381607921e+601Q,
   0.0Q,
   1.391213649547574269244583785301877697014e+598Q,
   0.0Q,
   -3.019368310063732690534016317408937056555e+594Q,
   0.0Q,
   6.614865873810156567130305174630865369502e+590Q,
   0.0Q,
   -1.462944872234491326268190333418366182267e+587Q,
   0.0Q,
   3.266301809649733068871560517374624063366e+583Q,
   0.0Q,
   -7.362507386190666312687279683948698933753e+579Q,
   0.0Q,
   1.675544994046308576738829415281236311899e+576Q,
   0.0Q,
   -3.850059076296534616902071032998325835608e+572Q,
   0.0Q,
   8.93264063656181593302959256047659028774e+568Q,
   0.0Q,
   -2.092733471959175086843719669047565795358e+565Q,
   0.0Q,
   4.950968762921350089190592485380891925934e+561Q,
   0.0Q,
   -1.182849471494765112687684111339801156933e+558Q,
   0.0Q,
   2.853992506952928883927516901760690549384e+554Q,
   0.0Q,
   -6.954749085169358873433413368765461591047e+550Q,
   0.0Q,
   1.71173621395161334015406464557772089942e+547Q,
   0.0Q,
   -4.255402141212548710198250247650183166804e+543Q,
   0.0Q,
   1.068598725321640869259944869638555838013e+540Q,
   0.0Q,
   -2.710697598774772311243965032636763093528e+536Q,
   0.0Q,
   6.946438425219361583925550181067345365087e+532Q,
   0.0Q,
   -1.798376267386484218574814867032065542047e+529Q,
   0.0Q,
   4.70390966088365564120568793114659502586e+525Q,
   0.0Q,
   -1.243141141272283946816374582067476728903e+522Q,
   0.0Q,
   3.319618852563901990319525071211117050607e+518Q,
   0.0Q,
   -8.957479484697522664309677561571296731863e+514Q,
   0.0Q,
   2.442513577699635580507221938760512671143e+511Q,
   0.0Q,
   -6.730784927247934112676913099445185882435e+507Q,
   0.0Q,
   1.874546660103621225278090659657234555916e+504Q,
   0.0Q,
   -5.276587227552529928421910494009475272964e+500Q,
   0.0Q,
   1.501277884164557824873905645731080776251e+497Q,
   0.0Q,
   -4.317627686401585265479769297188453234309e+493Q,
   0.0Q,
   1.255251479202732150237253709480572707133e+490Q,
   0.0Q,
   -3.689294538084070439593603535977222156342e+486Q,
   0.0Q,
   1.096248008730678126840399160028604233291e+483Q,
   0.0Q,
   -3.29346732163028978047841779004009121402e+479Q,
   0.0Q,
   1.000468438670553715092413947248573190687e+476Q,
   0.0Q,
   -3.073163413409033788285301865979192921479e+472Q,
   0.0Q,
   9.546126318021148751484983689848847767599e+468Q,
   0.0Q,
   -2.998853833745412078991956876072890588948e+465Q,
   0.0Q,
   9.527910441590720707264867869274748481065e+461Q,
   0.0Q,
   -3.061838236141930205962472759639761747247e+458Q,
   0.0Q,
   9.952617373398568408022374131534295007408e+454Q,
   0.0Q,
   -3.27258903669280615779154913609604686712e+451Q,
   0.0Q,
   1.088613385894846787202936984847891639634e+448Q,
   0.0Q,
   -3.663643279802420392071034600405970448226e+444Q,
   0.0Q,
   1.247497320626510982074239694318868092696e+441Q,
   0.0Q,
   -4.298163776510305459330666735693497654632e+437Q,
   0.0Q,
   1.498557867925991562874723600217607405428e+434Q,
   0.0Q,
   -5.287397740126714499082551235063809794991e+430Q,
   0.0Q,
   1.888075690374635488878106672141307052229e+427Q,
   0.0Q,
   -6.82397148889914184592108529310841126881e+423Q,
   0.0Q,
   2.496474869884619826334049216220417399518e+420Q,
   0.0Q,
   -9.245312231673787638703323801816830266522e+416Q,
   0.0Q,
   3.466194654935342617549922805938694070964e+413Q,
   0.0Q,
   -1.315692172427831787996465407831314820698e+410Q,
   0.0Q,
   5.056604850261895601649967286365484638814e+406Q,
   0.0Q,
   -1.967890596980130599083545322746640595999e+403Q,
   0.0Q,
   7.755581079270639402640758663010682529376e+399Q,
   0.0Q,
   -3.095521874551606936887666691614055087681e+396Q,
   0.0Q,
   1.251395769506959993659807099695574308112e+393Q,
   0.0Q,
   -5.12427391110071442843449071312845708241e+389Q,
   0.0Q,
   2.125606537443239268538932637428551476082e+386Q,
   0.0Q,
   -8.932701299497182021604548780082021287637e+382Q,
   0.0Q,
   3.803374808418206238917621347751256474151e+379Q,
   0.0Q,
   -1.64088932958086789779630454189000426204e+376Q,
   0.0Q,
   7.173833244266622765732724589186960661912e+372Q,
   0.0Q,
   -3.178509849848264321633144562680370145807e+369Q,
   0.0Q,
   1.4273653109003688225105118461868832448e+366Q,
   0.0Q,
   -6.497189417467801589266577371170440067434e+362Q,
   0.0Q,
   2.998021846245800211037037743119982443366e+359Q,
   0.0Q,
   -1.40250217363524560644787448402828139332e+356Q,
   0.0Q,
   6.652317197927629692071449927599594213935e+352Q,
   0.0Q,
   -3.199519460739697569027187509816003530095e+349Q,
   0.0Q,
   1.560562952858293574629380082132659369038e+346Q,
   0.0Q,
   -7.719789984566182764997039623630200212631e+342Q,
   0.0Q,
   3.873476014598878966136161754235998629715e+339Q,
   0.0Q,
   -1.971567309826934042989962947630932476377e+336Q,
   0.0Q,
   1.018081379067222064080773783693011615808e+333Q,
   0.0Q,
   -5.334073236633830659265013826537720953699e+329Q,
   0.0Q,
   2.83587549515267264152975296682458925418e+326Q,
   0.0Q,
   -1.53007895410142309619722653314432200158e+323Q,
   0.0Q,
   8.378890295407872236940253604573151047558e+319Q,
   0.0Q,
   -4.657505141269040690710743685034627556337e+316Q,
   0.0Q,
   2.628229459140379585633229162742956647906e+313Q,
   0.0Q,
   -1.505795433605468028306689143672773891559e+310Q,
   0.0Q,
   8.760156344622921514904073013488223219303e+306Q,
   0.0Q,
   -5.175497747036679796516388837900020088839e+303Q,
   0.0Q,
   3.105551759604892689602514186215463644675e+300Q,
   0.0Q,
   -1.892886664468565738853853165524661701685e+297Q,
   0.0Q,
   1.172096276705082657650852846629068188433e+294Q,
   0.0Q,
   -7.37410458713557576506584806390808929586e+290Q,
   0.0Q,
   4.714308530074265212826166319824800071931e+287Q,
   0.0Q,
   -3.062990699220833606553927031623105515154e+284Q,
   0.0Q,
   2.02278397360493216811767187783432771925e+281Q,
   0.0Q,
   -1.357961950028518147389213786929319319691e+278Q,
   0.0Q,
   9.268704867574931111525097869377021284368e+274Q,
   0.0Q,
   -6.43285751931478506106894605686366951075e+271Q,
   0.0Q,
   4.540496237160121319186166271231584615791e+268Q,
   0.0Q,
   -3.259712794719418482350212351303253057837e+265Q,
   0.0Q,
   2.380647901809239725225517431436148242777e+262Q,
   0.0Q,
   -1.768948090279737975756574452717118776668e+259Q,
   0.0Q,
   1.337532969978052402113784295006765762216e+256Q,
   0.0Q,
   -1.029271473790301115757955686658003876822e+253Q,
   0.0Q,
   8.062303387013084381352041433823864327086e+249Q,
   0.0Q,
   -6.429260694976930485198933337257770265639e+246Q,
   0.0Q,
   5.220424487938719997204481782127526934016e+243Q,
   0.0Q,
   -4.316830003076088326813960037884231583917e+240Q,
   0.0Q,
   3.635893872428260014934797498330150205686e+237Q,
   0.0Q,
   -3.119742157375508459451578478564529735753e+234Q,
   0.0Q,
   2.72748878790834695290272297756092991751e+231Q,
   0.0Q,
   -2.430082179649027425139038976697603659713e+228Q,
   0.0Q,
   2.206841164452784550768283368140988418555e+225Q,
   0.0Q,
   -2.04311704602864475750762704423055775846e+222Q,
   0.0Q,
   1.928718985119560209288682786929967790959e+219Q,
   0.0Q,
   -1.856869081012594509819071337152545491618e+216Q,
   0.0Q,
   1.823538632259567718106915443277497245243e+213Q,
   0.0Q,
   -1.827075266281457694386639440903606512513e+210Q,
   0.0Q,
   1.868073147126591389983969806893864024261e+207Q,
   0.0Q,
   -1.949473217492725913087341140007182102568e+204Q,
   0.0Q,
   2.076913800428760804346237789286139557847e+201Q,
   0.0Q,
   -2.259390199547525320495622613374077205503e+198Q,
   0.0Q,
   2.510332934507758651295990579858403782467e+195Q,
   0.0Q,
   -2.84928905509945827581152102173788852811e+192Q,
   0.0Q,
   3.304507144322603222830690862426507926424e+189Q,
   0.0Q,
   -3.916913259477282546829033333909001234732e+186Q,
   0.0Q,
   4.746271865490761539922125257217126525518e+183Q,
   0.0Q,
   -5.880839331167437124822070445495679193474e+180Q,
   0.0Q,
   7.452691030430089573093909452035065511615e+177Q,
   0.0Q,
   -9.662412110856091842431696847779348606578e+174Q,
   0.0Q,
   1.281948986348224273780882280659569679281e+172Q,
   0.0Q,
   -1.74094659203776765075736879891677570839e+169Q,
   0.0Q,
   2.420745864586851471831426748994991997632e+166Q,
   0.0Q,
   -3.447342044447767670460942759897461541679e+163Q,
   0.0Q,
   5.02940165764110497246840522742008199574e+160Q,
   0.0Q,
   -7.519231195198176975000812658394766269023e+157Q,
   0.0Q,
   1.152357722002116857980512665851799092971e+155Q,
   0.0Q,
   -1.810893216256890401605306788039065349552e+152Q,
   0.0Q,
   2.918961237477032365004059822007774030562e+149Q,
   0.0Q,
   -4.827648542272737178161017428185198786479e+146Q,
   0.0Q,
   8.195215221831378294091870369498425802275e+143Q,
   0.0Q,
   -1.428406750044352770058088209009884806444e+141Q,
   0.0Q,
   2.55719382310602058749858077137699708206e+138Q,
   0.0Q,
   -4.703847061963601451513827986196191810691e+135Q,
   0.0Q,
   8.893699169503296908876745332362351195703e+132Q,
   0.0Q,
   -1.729090760667674831674892070710471154907e+130Q,
   0.0Q,
   3.458042914157777179199228336425958054366e+127Q,
   0.0Q,
   -7.116987918825454862867606492905617466775e+124Q,
   0.0Q,
   1.507983153416477120568333656439927609298e+122Q,
   0.0Q,
   -3.290922535705444348677061408568146954618e+119Q,
   0.0Q,
   7.400342570526909427169205560528806007664e+116Q,
   0.0Q,
   -1.715524453403201939220715246064517549518e+114Q,
   0.0Q,
   4.101634616154229210890845673794154331791e+111Q,
   0.0Q,
   -1.011911287570459760500795579597355544997e+109Q,
   0.0Q,
   2.577332670275460450289647932998452812381e+106Q,
   0.0Q,
   -6.780555475309095889690251021310212764853e+103Q,
   0.0Q,
   1.843564742725652911857360288059411037131e+101Q,
   0.0Q,
   -5.183094914826456377612247903751200659387e+98Q,
   0.0Q,
   1.507665675880785977559484989449841305616e+96Q,
   0.0Q,
   -4.540065229609265524918705323026940575547e+93Q,
   0.0Q,
   1.41620252121948092583601799758628917703e+91Q,
   0.0Q,
   -4.578987268226579765389947446834559528404e+88Q,
   0.0Q,
   1.535602884642242307020714201325917805694e+86Q,
   0.0Q,
   -5.345016042528862400539560946275411034096e+83Q,
   0.0Q,
   1.932351423341981200333232660838015691045e+81Q,
   0.0Q,
   -7.261200880360671630367728151070684723224e+78Q,
   0.0Q,
   2.838224957069370695926415633648176473828e+76Q,
   0.0Q,
   -1.154902392396351966395427169156523904887e+74Q,
   0.0Q,
   4.896232703962055320684922451563131318187e+71Q,
   0.0Q,
   -2.164563486843518563133513615980853198508e+69Q,
   0.0Q,
   9.987557417572753068065277740815423602061e+66Q,
   0.0Q,
   -4.814321887404576935512957006597689579828e+64Q,
   0.0Q,
   2.426734039233352407802089206709212008974e+62Q,
   0.0Q,
   -1.280454688793950879019084975632289721469e+60Q,
   0.0Q,
   7.079877440849458061745297243339469147688e+57Q,
   0.0Q,
   -4.106705233581021247975204500407165001978e+55Q,
   0.0Q,
   2.501947904156046284365666149851662346091e+53Q,
   0.0Q,
   -1.602936452200896540606710234577294297971e+51Q,
   0.0Q,
   1.081363544997165469635403335113385960718e+49Q,
   0.0Q,
   -7.691985875950713516741007597178521438443e+46Q,
   0.0Q,
   5.777538634277043182488482568786438741207e+44Q,
   0.0Q,
   -4.589297443245433216886398900609283606217e+42Q,
   0.0Q,
   3.861427983270525889309272020023265011978e+40Q,
   0.0Q,
   -3.447378255827805387825645507995343118405e+38Q,
   0.0Q,
   3.271563423647871626421122701566870341361e+36Q,
   0.0Q,
   -3.306608987657757672568021467043921008333e+34Q,
   0.0Q,
   3.566658209537555610968457460865182898779e+32Q,
   0.0Q,
   -4.114728879255797869766548606761933615819e+30Q,
   0.0Q,
   5.089065946866228968976633291591192528736e+28Q,
   0.0Q,
   -6.764588237929282099094524230179847767567e+26Q,
   0.0Q,
   9.689957887463594065649794289465408805031e+24Q,
   0.0Q,
   -1.500173349215392873371144015151515151515e+23Q,
   0.0Q,
   2.518047192145109569708902332022552610788e+21Q,
   0.0Q,
   -4.597988834365650349043794326241134751773e+19Q,
   0.0Q,
   9.16774360319533077569927536231884057971e+17Q,
   0.0Q,
   -2.004031065651625273810842166323893898645e+16Q,
   0.0Q,
   4.824144835485017037158167036215816703622e+14Q,
   0.0Q,
   -1.285085049930508333333333333333333333333e+13Q,
   0.0Q,
   3.808793112524536881155302207933786881155e+11Q,
   0.0Q,
   -1.263572479591666666666666666666666666667e+10Q,
   0.0Q,
   4.723848677216299019607843137254901960784e+8Q,
   0.0Q,
   -2.005269579668807894614346227249453055905e+7Q,
   0.0Q,
   9.749368238505747126436781609195402298851e+5Q,
   0.0Q,
   -5.482758333333333333333333333333333333333e+4Q,
   0.0Q,
   3.607510546398046398046398046398046398046e+3Q,
   0.0Q,
   -2.814601449275362318840579710144927536232e+2Q,
   0.0Q,
   2.645621212121212121212121212121212121212e+1Q,
   0.0Q,
   -3.053954330270119743803954330270119743804Q,
   0.0Q,
   4.43259803921568627450980392156862745098e-1Q,
   0.0Q,
   -8.333333333333333333333333333333333333333e-2Q,
   0.0Q,
   2.109279609279609279609279609279609279609e-2Q,
   0.0Q,
   -7.575757575757575757575757575757575757576e-3Q,
   0.0Q,
   4.166666666666666666666666666666666666667e-3Q,
   0.0Q,
   -3.968253968253968253968253968253968253968e-3Q,
   0.0Q,
   8.333333333333333333333333333333333333333e-3Q,
   0.0Q,
   -8.333333333333333333333333333333333333333e-2Q,
   -5.0e-1Q,
   0.0Q,
   1.644934066848226436472415166646025189219Q,
   1.202056903159594285399738161511449990765Q,
   1.082323233711138191516003696541167902775Q,
   1.036927755143369926331365486457034168057Q,
   1.017343061984449139714517929790920527902Q,
   1.0083492773819228268397975498497967596Q,
   1.004077356197944339378685238508652465259Q,
   1.002008392826082214417852769232412060486Q,
   1.000994575127818085337145958900319017006Q,
   1.000494188604119464558702282526469936469Q,
   1.00024608655330804829863799804773967096Q,
   1.000122713347578489146751836526357395714Q,
   1.000061248135058704829258545105135333747Q,
   1.000030588236307020493551728510645062588Q,
   1.000015282259408651871732571487636722023Q,
   1.000007637197637899762273600293563029213Q,
   1.00000381729326499983985646164462193973Q,
   1.000001908212716553938925656957795101353Q,
   1.000000953962033872796113152038683449346Q,
   1.000000476932986787806463116719604373046Q,
   1.000000238450502727732990003648186752995Q,
   1.000000119219925965311073067788718882326Q,
   1.000000059608189051259479612440207935801Q,
   1.000000029803503514652280186063705069366Q,
   1.000000014901554828365041234658506630699Q,
   1.000000007450711789835429491981004170604Q,
   1.000000003725334024788457054819204018402Q,
   1.000000001862659723513049006403909945417Q,
   1.000000000931327432419668182871764735021Q,
   1.000000000465662906503378407298923325122Q,
   1.000000000232831183367650549200145597594Q,
   1.000000000116415501727005197759297383546Q,
   1.000000000058207720879027008892436859891Q,
   1.000000000029103850444970996869294252279Q,
   1.000000000014551921891041984235929632245Q,
   1.000000000007275959835057481014520869012Q,
   1.000000000003637979547378651190237236356Q,
   1.000000000001818989650307065947584832101Q,
   1.000000000000909494784026388928253311839Q,
   1.000000000000454747378304215402679911203Q,
   1.000000000000227373684582465251522682158Q,
   1.000000000000113686840768022784934910484Q,
   1.00000000000005684341987627585609277183Q,
   1.000000000000028421709768893018554550737Q,
   1.000000000000014210854828031606769834307Q,
   1.000000000000007105427395210852712877354Q,
   1.00000000000000355271369133711367329847Q,
   1.000000000000001776356843579120327473349Q,
   1.000000000000000888178421093081590309609Q,
   1.000000000000000444089210314381336419777Q,
   1.000000000000000222044605079804198399932Q,
   1.000000000000000111022302514106613372054Q,
   1.000000000000000055511151248454812437237Q,
   1.000000000000000027755575621361241725816Q,
   1.000000000000000013877787809725232762839Q,
   1.000000000000000006938893904544153697446Q,
   1.000000000000000003469446952165922624744Q,
   1.000000000000000001734723476047576572049Q,
   1.000000000000000000867361738011993372834Q,
   1.00000000000000000043368086900206504875Q,
   1.000000000000000000216840434499721978501Q,
   1.00000000000000000010842021724942414063Q,
   1.000000000000000000054210108624566454109Q,
   1.00000000000000000002710505431223468832Q,
   1.000000000000000000013552527156101164581Q,
   1.000000000000000000006776263578045189098Q,
   1.000000000000000000003388131789020796818Q,
   1.000000000000000000001694065894509799165Q,
   1.000000000000000000000847032947254699835Q,
   1.000000000000000000000423516473627283335Q,
   1.000000000000000000000211758236813619473Q,
   1.000000000000000000000105879118406802339Q,
   1.000000000000000000000052939559203398703Q,
   1.00000000000000000000002646977960169853Q,
   1.000000000000000000000013234889800848991Q,
   1.000000000000000000000006617444900424404Q,
   1.000000000000000000000003308722450212172Q,
   1.000000000000000000000001654361225106076Q,
   1.000000000000000000000000827180612553034Q,
   1.000000000000000000000000413590306276516Q,
   1.000000000000000000000000206795153138258Q,
   1.000000000000000000000000103397576569129Q,
   1.000000000000000000000000051698788284564Q,
   1.000000000000000000000000025849394142282Q,
   1.000000000000000000000000012924697071141Q,
   1.000000000000000000000000006462348535571Q,
   1.000000000000000000000000003231174267785Q,
   1.000000000000000000000000001615587133893Q,
   1.000000000000000000000000000807793566946Q,
   1.000000000000000000000000000403896783473Q,
   1.000000000000000000000000000201948391737Q,
   1.000000000000000000000000000100974195868Q,
   1.000000000000000000000000000050487097934Q,
   1.000000000000000000000000000025243548967Q,
   1.000000000000000000000000000012621774484Q,
   1.000000000000000000000000000006310887242Q,
   1.000000000000000000000000000003155443621Q,
   1.00000000000000000000000000000157772181Q,
   1.000000000000000000000000000000788860905Q,
   1.000000000000000000000000000000394430453Q,
   1.000000000000000000000000000000197215226Q,
   1.000000000000000000000000000000098607613Q,
   1.000000000000000000000000000000049303807Q,
   1.000000000000000000000000000000024651903Q,
   1.000000000000000000000000000000012325952Q,
   1.000000000000000000000000000000006162976Q,
   1.000000000000000000000000000000003081488Q,
   1.000000000000000000000000000000001540744Q,
   1.000000000000000000000000000000000770372Q,
   1.000000000000000000000000000000000385186Q,
   1.000000000000000000000000000000000192593Q,
   1.000000000000000000000000000000000096296Q,
   1.000000000000000000000000000000000048148Q,
   1.000000000000000000000000000000000024074Q,
   1.000000000000000000000000000000000012037Q,
   1.000000000000000000000000000000000006019Q,
   1.000000000000000000000000000000000003009Q,
   1.000000000000000000000000000000000001505Q,
   1.000000000000000000000000000000000000752Q,
   1.000000000000000000000000000000000000376Q,
   1.000000000000000000000000000000000000188Q,
   1.000000000000000000000000000000000000094Q,
   1.000000000000000000000000000000000000047Q,
   1.000000000000000000000000000000000000024Q,
   1.000000000000000000000000000000000000012Q,
   1.000000000000000000000000000000000000006Q,
   1.000000000000000000000000000000000000003Q,
   1.000000000000000000000000000000000000001Q,
   1.000000000000000000000000000000000000001Q,
};
