// Generated by tools/gen_bessel.py: poles with imag >= 0, imag ascending.
#pragma once
struct BesselPole { long double re, im; };
static BesselPole const bessel_ref[] = {
  {-1.0L, 0.0L},
  {-0.8660254037844386467637232L, 0.5L},
  {-0.9416000265332067855971976L, 0.0L},
  {-0.7456403858480766441810902L, 0.7113666249728352680992157L},
  {-0.9047587967882449459642634L, 0.2709187330038746636700936L},
  {-0.6572111716718829545787783L, 0.830161435004873377239971L},
  {-0.926442077387760224719626L, 0.0L},
  {-0.8515536193688395541722675L, 0.4427174639443327209850001L},
  {-0.5905759446119191779319431L, 0.9072067564574549539291745L},
  {-0.9093906830472271808050954L, 0.1856964396793046769246397L},
  {-0.7996541858328288520243326L, 0.5621717346937317988594119L},
  {-0.5385526816693109683073791L, 0.9616876881954277199245657L},
  {-0.9194871556490290014311621L, 0.0L},
  {-0.8800029341523374639772342L, 0.3216652762307739398381831L},
  {-0.7527355434093214462291617L, 0.6504696305522550699212996L},
  {-0.4966917256672316755024763L, 1.00250850845442040123022L},
  {-0.9096831546652910216327628L, 0.141243797667142292788815L},
  {-0.8473250802359334320103023L, 0.4259017538272934994996428L},
  {-0.7111381808485399250796171L, 0.718651731410840170576257L},
  {-0.4621740412532122027072175L, 1.034388681126901058116588L},
  {-0.9154957797499037686769221L, 0.0L},
  {-0.8911217017079759323183846L, 0.2526580934582164192308115L},
  {-0.8148021112269012975514135L, 0.508581568963149948374534L},
  {-0.6743622686854761980403398L, 0.7730546212691183706919682L},
  {-0.4331415561553618854685942L, 1.060073670135929666774323L},
  {-0.909134732090050243682643L, 0.1139583137335511169927714L},
  {-0.8688459641284764527921867L, 0.3430008233766309973110588L},
  {-0.7837694413101441082655891L, 0.5759147538499947070009853L},
  {-0.6417513866988316136190855L, 0.8175836167191017226233947L},
  {-0.4083220732868861566219785L, 1.08127484281912456203721L},
  {-0.9129067244518981934637319L, 0.0L},
  {-0.8963656705721166099815744L, 0.2080480375071031919692342L},
  {-0.8453044014712962954184558L, 0.4178696917801248292797448L},
  {-0.7546938934722303128102143L, 0.6319150050721846494520941L},
  {-0.612687155491519405418291L, 0.854781389331476463151851L},
  {-0.3868149510055090879155425L, 1.099117466763120928733632L},
  {-0.9084478234140682638817771L, 0.09550636521345039841525834L},
  {-0.8802534342016826507901574L, 0.2871779503524226723615457L},
  {-0.8217296939939077285792833L, 0.4810212115100676440620548L},
  {-0.7276681615395159454547014L, 0.6792961178764694160048986L},
  {-0.5866369321861477207528216L, 0.886377275132072702662215L},
  {-0.3679640085526312839425809L, 1.114373575641546257595657L},
  {-0.9110914665984182781070664L, 0.0L},
  {-0.8991314665475196220910721L, 0.1768342956161043620980863L},
  {-0.8625094198260548711573626L, 0.3547413731172988997754039L},
  {-0.7987460692470972510394686L, 0.5350752120696801938272505L},
  {-0.7026234675721275653944062L, 0.7199611890171304131266374L},
  {-0.5631559842430199266325818L, 0.9135900338325109684927731L},
  {-0.3512792323389821669401924L, 1.127591548317705678613239L},
  {-0.907793213839648761472066L, 0.08219639941940150188896813L},
  {-0.8869506674916445312089168L, 0.2470079178765333183201435L},
  {-0.8441199160909851197897668L, 0.4131653825102692595237261L},
  {-0.7766591387063623897344648L, 0.5819170677377608590492435L},
  {-0.6794256425119233117869492L, 0.7552857305042033418417492L},
  {-0.5418766775112297376541293L, 0.93730436835169195691831L},
  {-0.336386822490203733061004L, 1.139172297839859991370924L},
  {-0.9097482363849064167228578L, 0.0L},
  {-0.9006981694176978324932916L, 0.1537681197278439351298882L},
  {-0.8731264620834984978337843L, 0.3082352470564267657715883L},
  {-0.8256631452587146506294553L, 0.4642348752734325631275134L},
  {-0.7556027168970728127850416L, 0.6229396358758267198938606L},
  {-0.6579196593110998676999363L, 0.7862895503722515897065642L},
  {-0.5224954069658330616875186L, 0.9581787261092526478889344L},
  {-0.3229963059766444287113517L, 1.149416154583629539665297L},
  {-0.9072099595087001356491339L, 0.07214211304111732602882397L},
  {-0.8911723070323647674780134L, 0.216708965990057644941006L},
  {-0.8584264231521330481755783L, 0.3621697271802065647661081L},
  {-0.8074790293236003885306149L, 0.509293375117180017967622L},
  {-0.7356166304713115980927281L, 0.6591950877860393745845255L},
  {-0.637950251403906671577383L, 0.8137453537108761895522582L},
  {-0.5047606444424766743309968L, 0.9767137477799090692947064L},
  {-0.3108782755645387813283867L, 1.158552841199330479412225L},
  {-0.9087141161336397432860028L, 0.0L},
  {-0.9016273850787285964692845L, 0.1360267995173024591237302L},
  {-0.8801100704438627158492166L, 0.2725347156478803885651973L},
  {-0.8433414495836129204455492L, 0.4100759282910021624185986L},
  {-0.7897644147799708220288138L, 0.5493724405281088674296232L},
  {-0.7166893842372349049842742L, 0.6914936286393609433305754L},
  {-0.6193710717342144521602448L, 0.8382497252826992979368619L},
  {-0.4884629337672704194973683L, 0.9932971956316781632345463L},
  {-0.2998489459990082015466971L, 1.166761272925668786676672L},
  {-0.906700432416277555418903L, 0.06427924106393069383936067L},
  {-0.8939764278132455733032153L, 0.1930374640894758606940586L},
  {-0.8681095503628830078317205L, 0.3224204925163257604931633L},
  {-0.8281885016242836608829016L, 0.4529385697815916950149363L},
  {-0.7726285030739558780127745L, 0.5852778162086640620016315L},
  {-0.6987821445005273020051877L, 0.7204696509726630531663122L},
  {-0.6020482668090644386627297L, 0.8602708961893664447167417L},
  {-0.4734268069916151511140032L, 1.008234300314801077034158L},
  {-0.2897592029880489845789953L, 1.17418301060005912853223L},
  {-0.9078934217899404528985093L, 0.0L},
  {-0.9021937639390660668922538L, 0.1219568381872026517578164L},
  {-0.8849290585034385274001109L, 0.2442590757549818229026281L},
  {-0.8555768765618421591093994L, 0.3672925896399872304734923L},
  {-0.8131725551578197705476163L, 0.4915365035562459055630006L},
  {-0.7561260971541629355231895L, 0.6176483917970178919174176L},
  {-0.6818424412912442033411637L, 0.7466272357947761283262336L},
  {-0.5858613321217832644813604L, 0.8801817131014566284786759L},
  {-0.4595043449730988600785457L, 1.021768776912671221830298L},
  {-0.2804866851439370027628724L, 1.180931628453291873626003L},
  {-0.9062570115576771146523498L, 0.05796178027784951699020885L},
  {-0.8959150941925768608568248L, 0.1740317175918705058595844L},
  {-0.8749560316673332850673214L, 0.2905559296567908031706903L},
  {-0.8427907479956670633544106L, 0.407891732629193408213282L},
  {-0.7984251191290606875799875L, 0.5264942388817132427317659L},
  {-0.740278030964676899123261L, 0.6469975237605228320268751L},
  {-0.6658120544829934193890625L, 0.7703721701100763015154509L},
  {-0.5707026806915714094398061L, 0.8982829066468255593407162L},
  {-0.4465700698205149555701842L, 1.03409770256084296231541L},
  {-0.2719299580251652601727703L, 1.187099379810885886139638L},
  {-0.9072262653142957028884073L, 0.0L},
  {-0.9025428073192696303995083L, 0.1105252572789856480992275L},
  {-0.8883808106664449854431599L, 0.2213069215084350419975357L},
  {-0.8643915813643204553970166L, 0.3326258512522187083009452L},
  {-0.829943547067444410027346L, 0.4448177739407956609694057L},
  {-0.7840287980408341576100578L, 0.5583186348022854707564854L},
  {-0.7250839687106612822281337L, 0.6737426063024382240549895L},
  {-0.6506315378609463397807993L, 0.7920349342629491368548071L},
  {-0.5564766488918562465935295L, 0.9148198405846724121600857L},
  {-0.4345168906815271799687307L, 1.045382255856986531461592L},
  {-0.2640041595834031147954812L, 1.19276203194805247018396L},
  {-0.9058702269930872551848627L, 0.05277490828999904518900712L},
  {-0.8972983138153530955952835L, 0.1584351912289865608659759L},
  {-0.8799661455640176154025353L, 0.264436303920153504965645L},
  {-0.8534754036851687233084587L, 0.3710389319482319823405319L},
  {-0.8171682088462720394344995L, 0.4785619492202780899653573L},
  {-0.7700332930556816872932936L, 0.5874255426351153211965599L},
  {-0.7105305456418785989070934L, 0.6982266265924524000098547L},
  {-0.6362427683267827226840153L, 0.8118875040246347267248509L},
  {-0.5430983056306302779658131L, 0.9299947824439872998916657L},
  {-0.4232528745642628461715044L, 1.055755605227545931204656L},
  {-0.2566376987939318038016012L, 1.197982433555213008346532L},
  {-0.9066732476324988168207438L, 0.0L},
  {-0.9027564979912504609412991L, 0.101053433531404501325248L},
  {-0.8909283242471251458653993L, 0.2023024699381223418195228L},
  {-0.8709469395587416239596873L, 0.3039581993950041588888924L},
  {-0.8423805948021127057054285L, 0.4062657948237602726779245L},
  {-0.8045561642053176205623186L, 0.5095305912227258268309527L},
  {-0.7564660146829880581478136L, 0.6141594859476032127216462L},
  {-0.6965966033912705387505039L, 0.7207341374753046970247053L},
  {-0.622590322877134177827315L, 0.8301558302812980678845561L},
  {-0.5304922463810191698502226L, 0.943976036401830008375024L},
  {-0.4126986617510148836149954L, 1.065328794475513585531053L},
  {-0.2497697202208956030229911L, 1.202813187870697831365338L},
  {-0.9055312363372773709269405L, 0.04844006654047870087483633L},
  {-0.8983105104397872954053306L, 0.1454056133873610120105856L},
  {-0.8837358034555706623131945L, 0.2426335234401383076544238L},
  {-0.8615278304016353651120607L, 0.3403202112618624773397257L},
  {-0.831232646681324065267956L, 0.4386985933597305434577491L},
  {-0.7921695462343492518845448L, 0.5380628490968016700338L},
  {-0.7433392285088529449175873L, 0.6388084216222567930378295L},
  {-0.6832565803536521302816011L, 0.7415032695091650806797751L},
  {-0.6096221567378335562589531L, 0.8470292433077202380020455L},
  {-0.5185914574820317343536706L, 0.9569048385259054576937717L},
  {-0.4027853855197518014786976L, 1.074195196518674765143729L},
  {-0.2433481337524869675825447L, 1.207298683731972524975429L},
  {-0.9062073871811708652496105L, 0.0L},
  {-0.9028833390228020537142563L, 0.09307713118510296745064384L},
  {-0.8928551459883548836774529L, 0.1863068969804300712287138L},
  {-0.875949798967785780365624L, 0.279852132177140871932725L},
  {-0.8518616886554019782346495L, 0.3738977875907595009446141L},
  {-0.8201226043936880253962552L, 0.468666857465696658902058L},
  {-0.7800496278186497225905445L, 0.5644441210349710332887354L},
  {-0.7306549271849967721596735L, 0.6616149647357748681460822L},
  {-0.6704827128029559528610523L, 0.760734885816783987798701L},
  {-0.5972898661335557242320529L, 0.8626676330388028512598539L},
  {-0.5073362861078468845461363L, 0.9689006305344868494672407L},
  {-0.3934529878191079606023849L, 1.082433927173831581956863L},
  {-0.2373280669322028974199184L, 1.211476658382565356579418L},
  {-0.9052324538106688631077209L, 0.04476325744604598520909762L},
  {-0.8990666310927003626884844L, 0.1343571762381951992043413L},
  {-0.8866380387134748523701939L, 0.2241574214250259297346599L},
  {-0.8677449033146607024317874L, 0.3143158858637872705027406L},
  {-0.8420632674571531889879285L, 0.4050083567357438445080288L},
  {-0.8091163277141675399752963L, 0.4964496178455549381246302L},
  {-0.7682227352042335547234278L, 0.5889163701545716234297266L},
  {-0.7184081861805530319089144L, 0.6827850312360703124200204L},
  {-0.6582464599439500468884022L, 0.7785996445158955175924763L},
  {-0.5855487074007176559204269L, 0.8772069971587358982584729L},
  {-0.4966735256116895798495598L, 0.9800651413347925572240573L},
  {-0.3846488473030821128860356L, 1.09011249262794070541615L},
  {-0.2316706371468823608841295L, 1.215379413915128343038355L},
  {-0.9058095852880145548522594L, 0.0L},
  {-0.9029531787717242648925491L, 0.08626802840712895565640551L},
  {-0.8943426148399674401765703L, 0.1726574604972804415003847L},
  {-0.8798507910259230458725828L, 0.2592966419117324522909178L},
  {-0.8592550753423875703739838L, 0.3463287958555140099581788L},
  {-0.8322189441071489030047687L, 0.4339222296726790299976923L},
  {-0.7982611032516838827920143L, 0.5222847983285386211876776L},
  {-0.7567044423828508041620819L, 0.6116861401843383043091655L},
  {-0.7065894936424243554078115L, 0.7024945681968106197919707L},
  {-0.6465194176178478873503917L, 0.7952435076638120079711857L},
  {-0.5743574772259210964271694L, 0.8907637751274247697496116L},
  {-0.4865556132188682886057186L, 0.9904855802302059538096512L},
  {-0.3763266551138566572379517L, 1.097288864745254006298346L},
  {-0.2263419686360483357950982L, 1.219034774155179958024952L},
  {-0.904967573210118579200283L, 0.04160522155452881156129665L},
  {-0.8996411275045197187675456L, 0.1248697892482228437512355L},
  {-0.8889160139395543691467547L, 0.2082995792271284341371167L},
  {-0.8726427458122927012210319L, 0.2920146071312670358882995L},
  {-0.850583613433582332303618L, 0.3761510891463730360625658L},
  {-0.8223937714882541503618834L, 0.4608711099673121285767912L},
  {-0.7875904240739773059232102L, 0.5463765734839992358280505L},
  {-0.7455025768323552933438358L, 0.6329308506203905837643001L},
  {-0.6951863773002311000638565L, 0.7208948493705690743668612L},
  {-0.6352738927047991378549466L, 0.8107920823138459762529127L},
  {-0.5636783181419691054266423L, 0.9034382679629595513373179L},
  {-0.476939931222121686559288L, 1.000237160109307200866752L},
  {-0.3684454882916621654546185L, 1.104013123976685621339048L},
  {-0.2213123988374076337543242L, 1.222466844702998882967057L},
  {-0.9054659433862997196747975L, 0.0L},
  {-0.9029849872833136680474713L, 0.08038736507159361543041902L},
  {-0.8955109542725671068881433L, 0.1608728856794532303191382L},
  {-0.8829483477302735474796043L, 0.241559575740982815784831L},
  {-0.8651310147344007825516052L, 0.3225607653027800057756312L},
  {-0.8418104539477227745010678L, 0.4040069035733457227668894L},
  {-0.8126366465296431172245431L, 0.4860548082176107229665394L},
  {-0.7771274827532493939260389L, 0.5689011910831926291557608L},
  {-0.7346193924244447594779886L, 0.6528037891258391682285634L},
  {-0.6841845443912494958856846L, 0.7381166816974973163993163L},
  {-0.6244832514209308105982912L, 0.8253540734258505006564563L},
  {-0.5534764884367006443022935L, 0.9153173617161551174379119L},
  {-0.467788200660141160114907L, 1.009385109576754582434719L},
  {-0.3609690417504162992400864L, 1.110328771840204912878062L},
  {-0.2165558325670753037548803L, 1.225696622049644466308208L},
  {-0.9047314102630181441957506L, 0.03886340417354412798926193L},
  {-0.9000838040479112319376484L, 0.1166343309248629757424014L},
  {-0.8907336812630261415247677L, 0.1945396356500104314775702L},
  {-0.8765678910829173987583913L, 0.2726758758280575089912197L},
  {-0.8574078831584222943592204L, 0.3511509221338204562374385L},
  {-0.8329975793537640194435854L, 0.4300903977533559499662983L},
  {-0.8029841409610242332635263L, 0.5096465917164857362636027L},
  {-0.7668877489397754610984336L, 0.5900116226414912145153546L},
  {-0.7240531518527603606849829L, 0.6714381064379566773038595L},
  {-0.6735686810408362645017924L, 0.7542737761710708854731828L},
  {-0.6141221167710863030642691L, 0.839024054179948440995171L},
  {-0.5437201201492812783113057L, 0.9264767150507046719570556L},
  {-0.4590659561665241153219067L, 1.017986291213987670439162L},
  {-0.3538649882181195612222745L, 1.116273788286472007439112L},
  {-0.2120492126608837955300626L, 1.228742485793820203374098L},
  {-0.9051661060202931403470173L, 0.0L},
  {-0.902991145973459726596802L, 0.07525735062963169777387576L},
  {-0.8964423298819721589907332L, 0.1505951923719602872924389L},
  {-0.8854465053355110248666002L, 0.2260974994803872571586392L},
  {-0.8698770844777562141906347L, 0.301855586864617202593521L},
  {-0.8495463462694431663028481L, 0.3779727957058760311465405L},
  {-0.8241930705824609584161963L, 0.4545706484762996573944476L},
  {-0.7934633689596994134287108L, 0.5317974848198304968087506L},
  {-0.7568808876429505428840249L, 0.6098413097032565213423692L},
  {-0.7137992859711599137649345L, 0.6889500396508320191129768L},
  {-0.6633230116073920846823217L, 0.7694654710801759318152358L},
  {-0.6041664656291186730486237L, 0.8518847065114619015295982L},
  {-0.5343799791789698583811924L, 0.9369825303771571304101016L},
  {-0.4507420912989099907071939L, 1.026090513359021655267246L},
  {-0.3471044420365777148797137L, 1.121881490213517459874837L},
  {-0.2077720831238481992960905L, 1.231620599460729371645577L},
  {-0.9045197119310478412527767L, 0.03646061037554707006065591L},
  {-0.9004289054605142025914786L, 0.1094182665887459379747697L},
  {-0.8922047981746844087185096L, 0.1824866976739443118168654L},
  {-0.8797601412697554553751859L, 0.2557447946718040641669967L},
  {-0.8629581154878481814840489L, 0.3292795504228083504705L},
  {-0.8416042942144350920424268L, 0.4031904925885866572365077L},
  {-0.8154341740165765015010416L, 0.4775956101325295852591554L},
  {-0.7840941530101299430756969L, 0.5526397541566768397998654L},
  {-0.7471121975367958093165349L, 0.6285072055176001089256337L},
  {-0.7038512471212955033087507L, 0.7054415329285813266889176L},
  {-0.65343168773597352859201L, 0.7837789486922611536344345L},
  {-0.5945936595246979804254252L, 0.8640086467229990045282972L},
  {-0.5254292355027220943203475L, 0.9468929984441346681401615L},
  {-0.4427884646768045977256536L, 1.033741601269803555912469L},
  {-0.3406615077248928203636511L, 1.127181233608601020807293L},
  {-0.2037062263311277134646807L, 1.234345239234996932744798L},
  {-0.9049021994726179756826156L, 0.0L},
  {-0.9029799161120722304935149L, 0.07074286895334744984520409L},
  {-0.8971943780414531759351583L, 0.1415525659011643156121056L},
  {-0.8874885956085260033896928L, 0.2124984690677005422798704L},
  {-0.8737643882606964740400046L, 0.283655298169301380321456L},
  {-0.8558771695673964685081253L, 0.3551064324818962142171262L},
  {-0.8336277076948971199183254L, 0.4269481451481209350456337L},
  {-0.8067496437304586747298532L, 0.4992953411452249730406448L},
  {-0.7748906728005700355540458L, 0.5722897545326489907043456L},
  {-0.7375836963975256375666924L, 0.64611226268621963858301L},
  {-0.6942011392791877545112313L, 0.7210023835297799814852097L},
  {-0.6438790559892154970836752L, 0.7972910523075382537549319L},
  {-0.5853824322607776985581058L, 0.875459923373052473100118L},
  {-0.5168432477385587534519986L, 0.9562594847309896537538871L},
  {-0.4351795583959805167829048L, 1.040978277805864313765777L},
  {-0.3345128980946698394590955L, 1.13219899170386780584532L},
  {-0.1998353599359787082186679L, 1.236929065375287690667734L},
  {-0.9043289811482142437420039L, 0.03433762284451884245791054L},
  {-0.9007005420372582470111198L, 0.1030433070408871718715905L},
  {-0.8934102627533048949140093L, 0.1718413937440204700024161L},
  {-0.8823897702077852845173087L, 0.2407972035766267370732662L},
  {-0.8675323961275709429946636L, 0.3099819868728348536002923L},
  {-0.8486876997179604299611897L, 0.3794760621192974553927053L},
  {-0.8256531200919476177130296L, 0.4493728900100162127461167L},
  {-0.7981615448609784170894138L, 0.5197846522459164310821924L},
  {-0.7658627295251830635744375L, 0.590850269045807084646377L},
  {-0.7282949448124697017810966L, 0.6627474815233671516007661L},
  {-0.6848401842303089155524298L, 0.7357120108310998858495775L},
  {-0.6346498385929226520536694L, 0.8100697855171348573184061L},
  {-0.5765128500980129020197032L, 0.8862952542679290724457955L},
  {-0.5085993639642391141714281L, 0.9651275100817113328946747L},
  {-0.4278921813066937156835248L, 1.047834892143282629234074L},
  {-0.32863760973127397473095L, 1.136957834065436957451826L},
  {-0.1961448822459502948547754L, 1.239383347705792187770882L},
  {-0.9046681303514377795940991L, 0.0L},
  {-0.9029569113353215284528804L, 0.0667393984817373956929629L},
  {-0.8978084508822005965977721L, 0.1335348902937808299768802L},
  {-0.8891776872558074678876348L, 0.2004444708084425635373245L},
  {-0.8769872758351203607063292L, 0.2675300988418200380405982L},
  {-0.861123967433300982111033L, 0.3348601029085904573621307L},
  {-0.841432964190385332636324L, 0.4025121773754705753397005L},
  {-0.8177095300562932827752976L, 0.4705773242632740079147138L},
  {-0.7896866523487053860491436L, 0.5391652948273227212638246L},
  {-0.7570167214807959951463867L, 0.6084124458078164694719417L},
  {-0.7192436741982732034655564L, 0.6784936073873451234503242L},
  {-0.67575906649844264017098L, 0.7496409236568297975621039L},
  {-0.6257292518901666361608077L, 0.8221755568511276140883308L},
  {-0.5679662552210812018236374L, 0.8965650542217400363840191L},
  {-0.5006767392812896039477454L, 0.9735375661672825331686376L},
  {-0.4209052107758754151910961L, 1.054342026367399991136804L},
  {-0.3230166460267241090103103L, 1.141478325954925719617646L},
  {-0.1926216571950631303218934L, 1.24171815405210778479201L},
  {-0.9041563296177057305951297L, 0.0324482565048213752512669L},
  {-0.9009160422468666814730889L, 0.09737045864217232981964324L},
  {-0.8944088501743374143254412L, 0.1623705466966172758145439L},
  {-0.8845804035474803709919173L, 0.2275032372267439154678369L},
  {-0.8713462753077576354164051L, 0.2928276700949317018135436L},
  {-0.8545881363380927450631078L, 0.358409684354541899561163L},
  {-0.8341480122362429101592495L, 0.4243246991835433120407222L},
  {-0.8098198983153273448602247L, 0.4906615441977554313231185L},
  {-0.7813375430987122535449367L, 0.5575277805485800847782718L},
  {-0.7483564011518829919556813L, 0.625057410517915642324479L},
  {-0.7104262674400619053464533L, 0.6934225454711286429211407L},
  {-0.6669481881234841220883807L, 0.7628519444622554656223697L},
  {-0.6171030801318601908995584L, 0.8336622190116245388791238L},
  {-0.5597251997667709962423199L, 0.9063142938560011255386823L},
  {-0.4930561697716450622725041L, 0.9815257974463184978190715L},
  {-0.4141993674738416054403363L, 1.060527003256485887109547L},
  {-0.3176327798178514867765882L, 1.145778863092328126144712L},
  {-0.1892538318579392425335404L, 1.243942508576939923582105L},
  {-0.9044591093343424070016246L, 0.0L},
  {-0.9029260036511681579318003L, 0.06316481611137466938314784L},
  {-0.8983148084023131340323897L, 0.1263771742804273478599939L},
  {-0.8905894213641474145974571L, 0.1896860586306321523150949L},
  {-0.879688068567942497570526L, 0.2531434452823227874377413L},
  {-0.8655207338900334085760649L, 0.3168060837619386850742136L},
  {-0.8479651990500263761367901L, 0.3807376688913816479825643L},
  {-0.8268612495769330852512058L, 0.4450116264688162515343479L},
  {-0.802002327061739656242872L, 0.5097148477651014754035532L},
  {-0.7731234539255167567702383L, 0.5749529031389663974887367L},
  {-0.7398834656637241797474284L, 0.6408576167473645766543697L},
  {-0.7018381278081323645941136L, 0.7075985466324776238007592L},
  {-0.6583978560954564091044204L, 0.7754012362520952327402934L},
  {-0.6087577173091238013813189L, 0.8445779412924804428692201L},
  {-0.5517733753316675330224796L, 0.9155832210719283054436957L},
  {-0.4857199420172056844412897L, 0.9891245745248080295455828L},
  {-0.4077570185290838000085362L, 1.066414313606114919027852L},
  {-0.3124703491629036744455038L, 1.149875953745015051682985L},
  {-0.1860306808597923907805293L, 1.246064525511962363362823L},
  {-0.9039993587038530100910008L, 0.03075596046540311483791079L},
  {-0.9010880876819341721003987L, 0.09228976034273556831711463L},
  {-0.8952440725632226501953912L, 0.1538898229514259418867888L},
  {-0.8864235605834528676666393L, 0.2156024537383830441006476L},
  {-0.8745588320986860308126087L, 0.2774773135508968827965322L},
  {-0.8595554721586386475736611L, 0.3395691037305151075405196L},
  {-0.841288324410026238609605L, 0.4019396533941107690946482L},
  {-0.8195956809831289993609839L, 0.4646606248350884233816173L},
  {-0.794270995013839890032178L, 0.5278171642333151545319906L},
  {-0.7650509592032561062295785L, 0.591513018067193073272052L},
  {-0.7315980192891899360773759L, 0.655877982601360600854639L},
  {-0.6934739626827019763035301L, 0.7210792065020232982148608L},
  {-0.6500984192912267645586514L, 0.7873391684570103459150524L},
  {-0.6006801862264606458203135L, 0.8549659456969694904456384L},
  {-0.5440955412470493705053895L, 0.924407970223221207272428L},
  {-0.4786516971064703920860541L, 0.9963629786344143159675375L},
  {-0.4015620050861808439304587L, 1.072025977640583943537075L},
  {-0.3075150809678230826925285L, 1.153784457608841283411451L},
  {-0.1829424731344847484136285L, 1.248091522659648123335803L},
  {-0.9042713200300231886103786L, 0.0L},
  {-0.9028898960704152001170473L, 0.05995370208010810361763696L},
  {-0.8987359827370406932845236L, 0.1199480498326052498198578L},
  {-0.8917803141066107882601699L, 0.180024798393217736183369L},
  {-0.8819729456833357613310574L, 0.2402279963785678614277035L},
  {-0.8692413947354126778635134L, 0.3006053287674216188754825L},
  {-0.8534878029956275778293673L, 0.3612097246206220743206624L},
  {-0.8345848401585424707877867L, 0.4221013742352029032698145L},
  {-0.812369902747967056564608L, 0.4833503656715000754151788L},
  {-0.7866369029760689755802276L, 0.5450402610629166613531574L},
  {-0.7571245087554940602519818L, 0.6072731240934787660592876L},
  {-0.7234989370927494459918377L, 0.670176852330886701664796L},
  {-0.6853280019747058188438972L, 0.7339163114052597355031463L},
  {-0.6420403674367683071821274L, 0.7987110505663828137743678L},
  {-0.5928581414995105375898451L, 0.8648651310363930171798058L},
  {-0.5366774537810558517925658L, 0.9328210789262454972096542L},
  {-0.4718363079502747401856743L, 1.003267212951386706779315L},
  {-0.3955994908923829270898699L, 1.077381852120294522873149L},
  {-0.302753938116258645604511L, 1.157517789045827585517874L},
  {-0.1799803573455838649899192L, 1.25003011816861994436484L},
  {-0.9038560645781977541900566L, 0.02923143046847921149267643L},
  {-0.9012261088564670107047692L, 0.08771307815124289675741612L},
  {-0.8959486827865695967662024L, 0.1462515712779996864229675L},
  {-0.8879881638285509973643567L, 0.2048864549138981578693728L},
  {-0.8772895859899141454458357L, 0.2636598576727185951567988L},
  {-0.8637766565336028933182434L, 0.3226177623137528660201389L},
  {-0.8473488458396573900803818L, 0.381811550198968331893501L},
  {-0.8278772666388704102845069L, 0.4412999592963156355505248L},
  {-0.8051988999625800558182214L, 0.5011516606518270127914477L},
  {-0.7791084713914951588016682L, 0.5614487677386220877830471L},
  {-0.7493468567056494841857613L, 0.622291781760985632581219L},
  {-0.715584151742806029412743L, 0.6838068136779107006430021L},
  {-0.6773941662538795987053758L, 0.7461565579038791682112793L},
  {-0.6342144014570483108646059L, 0.8095577565635041439229201L},
  {-0.5852798613453678855985336L, 0.8743106044612612318189613L},
  {-0.5295057976480265848109148L, 0.9408519284914124922074515L},
  {-0.4652597687146403609986056L, 1.009860953371199923881305L},
  {-0.3898558290401211924317728L, 1.082499892468681142691441L},
  {-0.2981749865157315841811385L, 1.161088090761519962428399L},
  {-0.1771362629675102312582042L, 1.251886313406471944059066L},
  {-0.9041016838638080886049195L, 0.0L},
  {-0.9028504931414332390243162L, 0.05705329852904984295898634L},
  {-0.89908901348605440659116L, 0.1141416192152858378305166L},
  {-0.8927932689976053938742713L, 0.1713008491025118559420865L},
  {-0.8839224353344199538979907L, 0.2285686575142725992846951L},
  {-0.8724174710521156093953143L, 0.2859855246543405091961419L},
  {-0.8581990466883429373087957L, 0.3435959537346090574424172L},
  {-0.8411645884316922401272643L, 0.4014499628312988490987087L},
  {-0.8211841523333643950977212L, 0.4596049921742730730624605L},
  {-0.7980946903803655091527815L, 0.5181284274824522425184594L},
  {-0.7716920215415675794375088L, 0.577101048338537430899937L},
  {-0.7417194047485261455809421L, 0.6366218969348931236150567L},
  {-0.7078508802986488598633655L, 0.6968153956807592746248425L},
  {-0.669666195986250880193165L, 0.7578421675177541716479395L},
  {-0.6266114822482507639543152L, 0.819916258720756106209624L},
  {-0.5779342317152441230273319L, 0.883334136102190288918278L},
  {-0.5225681206660698930078118L, 0.9485271208682028815488791L},
  {-0.4589090952168673367320996L, 1.016165648922246500910286L},
  {-0.3843184444176592171945373L, 1.087396377451812645972326L},
  {-0.2937672790853305619229948L, 1.164506382843066237288324L},
  {-0.1744028145666137243941724L, 1.253665564219664534093207L},
  {-0.9037247631094284731647113L, 0.02785089781909105983340477L},
  {-0.9013372192450517252950839L, 0.08356894447710298553193069L},
  {-0.8965477031616762989401184L, 0.1393361250284514586413426L},
  {-0.8893269151311438996109721L, 0.1951864867220641900359888L},
  {-0.8796297649245610308937743L, 0.2511560927787317900064593L},
  {-0.8673939057775819741972948L, 0.3072839959771430840687132L},
  {-0.8525376026465296522359826L, 0.3636134027303735264113113L},
  {-0.8349567495243712404307473L, 0.420193120504627546618031L},
  {-0.8145207528288160058535236L, 0.4770794209671085788253663L},
  {-0.7910668469279907155827391L, 0.5343385156882327873467145L},
  {-0.7643921647267201911635494L, 0.5920499484303953488415343L},
  {-0.7342424778854905093787753L, 0.6503113920686009998978853L},
  {-0.7002958038763669254824936L, 0.7092456669228848180996411L},
  {-0.6621377505922279630432979L, 0.7690114140741803109670781L},
  {-0.6192228631818999766959396L, 0.8298200857857249283778291L},
  {-0.5708107253575984051186038L, 0.8919645495288927667985693L},
  {-0.5158527720333864368416861L, 0.9558708025626591763124632L},
  {-0.4527722351982242637020321L, 1.022200780085907312256187L},
  {-0.3789757297795053271525753L, 1.09208610253179686773259L},
  {-0.2895207542080702563369481L, 1.167782691161479605008821L},
  {-0.1717732572564046036587807L, 1.255372842447219695644918L},
  {-0.9039476899991731925753652L, 0.0L},
  {-0.902809145725806375842441L, 0.05442058737077214032874086L},
  {-0.8993869663788339785882485L, 0.1088715654283157476767135L},
  {-0.8936613216364592611117422L, 0.163384007155739073988131L},
  {-0.8855985116801441524591724L, 0.217990387739088954390899L},
  {-0.8751499443226936626916642L, 0.272725383716229403802118L},
  {-0.8622505983222541698397246L, 0.3276268017659895180900494L},
  {-0.8468168509122268736138309L, 0.3827367026897853631998478L},
  {-0.828743483613374133992414L, 0.4381028107230530543684934L},
  {-0.8078995852757978878901451L, 0.4937803377284407522941194L},
  {-0.7841229236428327648050968L, 0.5498344157023384889722806L},
  {-0.7572121182650471670589429L, 0.6063434370258480791834511L},
  {-0.7269155465904724327421086L, 0.6634037836048859828505372L},
  {-0.6929152101621784846252212L, 0.7211367504676880798588282L},
  {-0.6548024840161918257767327L, 0.7796990778811458216277745L},
  {-0.6120401103638751286968317L, 0.8392997178003695842841907L},
  {-0.563899377695395204645722L, 0.9002280583856845844592319L},
  {-0.5093488444410853043051695L, 0.9629049440582038404422287L},
  {-0.446837987468269269636107L, 1.027984081771215379530453L},
  {-0.3738169536520055174363572L, 1.096582546894611750994837L},
  {-0.2854261465770978001479283L, 1.170926158412532298081899L},
  {-0.1692413916507812370926149L, 1.257012689218228042435899L},
  {-0.9036040304089494424328927L, 0.02659488126524808996944738L},
  {-0.90142685341580275430926L, 0.07979879577665896721991303L},
  {-0.8970605060896232355917736L, 0.133045468521181755175683L},
  {-0.8904806663852630540013819L, 0.1863644284331709144843472L},
  {-0.8816499900413927369161253L, 0.2397867965535185680527117L},
  {-0.8705170104761793399537753L, 0.2933460427773628544449218L},
  {-0.857014551603855830236548L, 0.347078877637663958208697L},
  {-0.8410575298220264362470163L, 0.4010263423427196023740521L},
  {-0.8225399594722386522836731L, 0.4552351849485887820562963L},
  {-0.8013308832444860714978705L, 0.5097596497421759417234188L},
  {-0.7772688043249951328854108L, 0.5646638701772065827227507L},
  {-0.7501539629872828070358374L, 0.620025160485201901092671L},
  {-0.7197374062855182338903997L, 0.6759386805362740654084514L},
  {-0.6857051065171130875929913L, 0.732524268753536427989218L},
  {-0.6476541019719020607222669L, 0.7899368383385780701421001L},
  {-0.6050551137064086397590038L, 0.8483829275764742534898822L},
  {-0.5571907608833305222478838L, 0.9081485576905335068710449L},
  {-0.5030461200699468050431165L, 0.9696495817340910448703657L},
  {-0.4410959290027989262231716L, 1.033531736480707704490574L},
  {-0.3688321785463981484807728L, 1.100898018258516013770838L},
  {-0.2814749086976240616441848L, 1.173945140488078499829612L},
  {-0.1668015169219901130830745L, 1.258589261293502549091414L},
  {-0.9038072702322518650079058L, 0.0L},
  {-0.9027668156830140311237049L, 0.05202014173841878995704285L},
  {-0.8996399857740003285708954L, 0.1040668251442594049193411L},
  {-0.8944102362981506412153721L, 0.156167135986808812159901L},
  {-0.8870494994604799230724054L, 0.2083492755959996047905024L},
  {-0.8775174087749414462236979L, 0.2606431896992804862756207L},
  {-0.8657601417989452631591364L, 0.3130812904213219623499666L},
  {-0.8517087977699065023475598L, 0.3656993170729526917699846L},
  {-0.8352771855800803253199918L, 0.4185373970543227064377351L},
  {-0.8163588372746782709271455L, 0.4716413928333987154616284L},
  {-0.7948229714519062993667504L, 0.5250646598710241479297082L},
  {-0.7705089890157823501184248L, 0.5788704029855108768872788L},
  {-0.7432188537358730340360186L, 0.6331349222122536024914993L},
  {-0.7127063226477055731211162L, 0.6879522164520051581031002L},
  {-0.6786613097204097462011539L, 0.7434407293530156215445975L},
  {-0.6406864048675256976572468L, 0.7997536145366845947970563L},
  {-0.5982600911437975938673403L, 0.8570950770749165647186699L},
  {-0.5506759570292502624450719L, 0.9157478767858116909358481L},
  {-0.4969350204061348334200929L, 0.9761230280442209248742828L},
  {-0.4355363491640652102343034L, 1.038858542232210800520563L},
  {-0.3640121881689552765190548L, 1.105043778851133782422792L},
  {-0.2776591415801983671607315L, 1.176847290401340488395889L},
  {-0.1644483808001230156381875L, 1.260106371494531003349047L},
  {-0.9034926556486568704463443L, 0.02544726200296578265964285L},
  {-0.9014992111790476719345913L, 0.07635418551537272123251386L},
  {-0.8975022709241039979223658L, 0.1272985499617646212042578L},
  {-0.8914814752025022283036197L, 0.1783061356088039471449761L},
  {-0.8834056259179484303956787L, 0.2294039938447625663184735L},
  {-0.8732318497672489360239978L, 0.2806210429620282548572083L},
  {-0.8609043991358579822494564L, 0.3319887613054949796971615L},
  {-0.8463530062723277638746224L, 0.3835420217556945819505351L},
  {-0.8294906660412937304430142L, 0.4353201273002768329621003L},
  {-0.8102106637658349616027101L, 0.4873681319865904756356684L},
  {-0.7883825756901147192367905L, 0.5397385701318608064402279L},
  {-0.7638468302150124672306946L, 0.5924937786281498112648533L},
  {-0.7364071919422068497769264L, 0.6457090995362158743717288L},
  {-0.7058201494587505098395634L, 0.6994774252367044230056245L},
  {-0.6717795170971095471838349L, 0.7539158605972951194145286L},
  {-0.6338933195269390367127122L, 0.8091758617305231728403175L},
  {-0.5916475877716903536264373L, 0.8654593755074101227252289L},
  {-0.5443465312822425555552769L, 0.923045999721870108653356L},
  {-0.4910065597388911329475993L, 0.982342054726554991701527L},
  {-0.4301501902949315115449791L, 1.04397805901757631301053L},
  {-0.3593484225019575489298664L, 1.109030155363775227674905L},
  {-0.2739715333871011981895072L, 1.179639631611344492809433L},
  {-0.1621771355389729851200004L, 1.261567524087049118121023L},
  {-0.9036787055711356331973941L, 0.0L},
  {-0.9027241884839140137768457L, 0.04982252217887307805108775L},
  {-0.8998560372457355818682262L, 0.09966836086383476948361811L},
  {-0.8950603397397044020744735L, 0.1495612707577476674893601L},
  {-0.8883135285241615277013065L, 0.1995259031361658756710898L},
  {-0.8795817860579868053241713L, 0.2495883063791272765262727L},
  {-0.8688201614633856615154308L, 0.2997764944987627202371775L},
  {-0.8559713413648626555028362L, 0.3501211160285726272518825L},
  {-0.8409639896143158706451558L, 0.4006562658968700554416825L},
  {-0.8237105315408443837046025L, 0.4514204987049498168364543L},
  {-0.8041042008633940499744138L, 0.5024581262256404169350531L},
  {-0.7820150800953257444318328L, 0.5538209201691429406605693L},
  {-0.7572847282813627330694606L, 0.6055704025566984902311209L},
  {-0.7297187674756656712312532L, 0.6577810072118529426182695L},
  {-0.6990764243093286319127435L, 0.7105445688425747279717856L},
  {-0.6650553627705416060028296L, 0.7639769045299795023728172L},
  {-0.627268922142205027118298L, 0.8182278302383178733265397L},
  {-0.5852104712708517724863181L, 0.873497104823555201807641L},
  {-0.5381945052817061940617658L, 0.9300612578774588247273722L},
  {-0.4852523021595119845294292L, 0.9883220530094271838312652L},
  {-0.4249289940162575753866828L, 1.048902736944114847666071L},
  {-0.3548329197854568335136294L, 1.11286663522143510180873L},
  {-0.2704053049812069934330989L, 1.182328622284443602170744L},
  {-0.1599832990274325527301401L, 1.262975945843489696840174L},
  {-0.9033896034614194393421674L, 0.0243945882484437527171329L},
  {-0.9015575719436783162797875L, 0.07319468965334387691401162L},
  {-0.8978850217593632908209138L, 0.1220277620098911886879434L},
  {-0.8923547793351818980431679L, 0.1709164486617787678106556L},
  {-0.884940574781732334365162L, 0.2198844179071393705190902L},
  {-0.8756063975043652858784923L, 0.2689568374935844910619234L},
  {-0.8643055782867684581409537L, 0.3181609204025844512418953L},
  {-0.8509795391909290658070389L, 0.3675265730923237004687525L},
  {-0.835556125794353076352772L, 0.4170871877044124259602713L},
  {-0.8179473980760957187854214L, 0.4668806355013190416854604L},
  {-0.7980466999182637061485952L, 0.5169505430210479157287156L},
  {-0.7757247414270744062509933L, 0.567347970298879146565099L},
  {-0.7508242935435275988541374L, 0.6181336711335003646097056L},
  {-0.7231528754963136949671434L, 0.6693812153781595017882711L},
  {-0.692472446382339031905822L, 0.7211814241439765474831693L},
  {-0.6584844620007258997731706L, 0.7736488734079288180794966L},
  {-0.6208074543656802349330184L, 0.8269317922212373829481269L},
  {-0.5789419246564706407178891L, 0.8812278173064046196637447L},
  {-0.5322123313079063658546773L, 0.9368104988261497136134599L},
  {-0.4796643218567560403764501L, 0.9940771741266246499167791L},
  {-0.4198648526281624774233809L, 1.053644028687025730610076L},
  {-0.3504582645625276759989198L, 1.116561951123688851509706L},
  {-0.2669541614828395483046761L, 1.184920211780144944613546L},
  {-0.1578627203529092577085681L, 1.264334613391597444652658L},
  {-0.9035605555171574557121706L, 0.0L},
  {-0.902681751337973684163265L, 0.04780306298314476177413415L},
  {-0.9000414400494924926109751L, 0.09562671965836960055326458L},
  {-0.8956278379112561464254064L, 0.1434919198247662712509124L},
  {-0.8894210089825473896898029L, 0.1914203405718256783957297L},
  {-0.8813924034672274387779877L, 0.239434788848876199029154L},
  {-0.871504175406781349584583L, 0.2875596543654661003804434L},
  {-0.8597082392294824506350693L, 0.3358214361770825893900645L},
  {-0.8459450058043812129155285L, 0.3842493731512067093636994L},
  {-0.8301417125840357927389292L, 0.4328762188732641366560427L},
  {-0.812210225053991383639056L, 0.4817392172426998508790746L},
  {-0.792044131414229332928197L, 0.530881359033020659672912L},
  {-0.7695148680998655432283305L, 0.5803530371768419127147918L},
  {-0.7444664811528633094565822L, 0.6302142785039590271824454L},
  {-0.7167084129000356011437472L, 0.6805378285219779040032931L},
  {-0.6860053396890911177854549L, 0.7314135347323181693930136L},
  {-0.6520624459616379248739271L, 0.7829547749497067440161219L},
  {-0.6145033340418394150856387L, 0.8353082409128341008546994L},
  {-0.5728354371490884476171553L, 0.8886695092322431027170118L},
  {-0.5263928673610818714723804L, 0.943309234808237610918241L},
  {-0.4742351664931271981866967L, 0.9996204529179052895986168L},
  {-0.4149503650806629032614865L, 1.058212488457668177612322L},
  {-0.3462175410637251072969866L, 1.120124155497866542784517L},
  {-0.2636122490706399579708854L, 1.187419890442920737946204L},
  {-0.1558115492286456936744419L, 1.265646277360434805026406L},
};
// poles of order n: bessel_ref[bessel_off[n-1]] .. bessel_ref[bessel_off[n]-1]
static int const bessel_off[] = {0, 1, 2, 4, 6, 9, 12, 16, 20, 25, 30, 36, 42, 49, 56, 64, 72, 81, 90, 100, 110, 121, 132, 144, 156, 169, 182, 196, 210, 225, 240, 256, 272, 289, 306, 324, 342, 361, 380, 400, 420, 441, 462, 484, 506, 529, 552, 576, 600, 625};
