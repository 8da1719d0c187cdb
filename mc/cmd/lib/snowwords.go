package main

import "strings"

// snowWords are the stop words, endings and exceptions which the stemming library treats specially, of all languages.
var snowWords = strings.Fields(`
' 's 's' I Ier Ièr Ière U Y a aIent aba abais aban abas abil abl able ables abli about above aciones ación ad
ada adas ade ades ado ador adora adoras adores ados aeiou aeiouyâàëéêèïîôûù aeiouáéíóúü after again against ai
aie aient aies ais ait al algo algunas algunos alism aliti alize all alla alle alli allt am amente amiento
amientos amment amos an ance ances anci ancia ancias and ande anden andes andet ando andre ane ant ante antes
ants any anza anzas ar ara arais aran aras arbeid are aremos aren arens arna arnas arne aron arsen ará arán
arás aré aréis aría aríais aríamos arían arías as ase aseis asen ases asse assent asses assiez assions ast
aste asteis at ate ateur ateurs ation ational ations ative atlas ator atrice atrices att au aura aurai
auraient aurais aurait auras aurez auriez aurions aurons auront aux av avaient avais avait avec avez aviez
avions avons ayant ayante ayantes ayants ayez ayons bb be because been before begge being below between bias
biliti bl ble blev bli blir blivit bort both bra bruke but by c can canning cannings ce ces col commun como
con contra cosmos cual cuando d da dans dd de del dem den denna denne der deras deres des desde dess dessa det
detta did die dig din dina disse ditt do does doing don donde double down dt du durante during dying där då e
each earli early earring earrings eau eaux ed ede edes edly ee eed eedly efter eig eill ej el eleg elig ell
ella ellas elle eller ellos elov els ement ements emment emos en ence ences enci encia encias ende endes ene
enes eneste enhver enn ens ent ente entli entre er era eraIent erai erais erait eran eras eremos eres erez
eriez erions ern erna ernas erns erons eront ers ert erte erá erán erás eré eréis ería eríais eríamos erían
erías es esa esas ese eso esos est esta estaba estabais estaban estabas estad estada estadas estado estados
estamos estando estar estaremos estará estarán estarás estaré estaréis estaría estaríais estaríamos estarían
estarías estas este estemos esto estos estoy estuve estuviera estuvierais estuvieran estuvieras estuvieron
estuviese estuvieseis estuviesen estuvieses estuvimos estuviste estuvisteis estuviéramos estuviésemos estuvo
está estábamos estáis están estás esté estéis estén estés et ets ett eu eue eues eurent eus euse euses eusse
eussent eusses eussiez eussions eut eux exceed exceeded exceeding exceeds ez eûmes eût eûtes few ff folk for
fordi forsøke fra from från fue fuera fuerais fueran fueras fueron fuese fueseis fuesen fueses fui fuimos
fuiste fuisteis ful full fulli fullt fulness furent further fus fusse fussent fusses fussiez fussions fut
fuéramos fuésemos få för før først fûmes fût fûtes gd gener gentl gently gg gjorde gjøre god gt gu gå ha
habida habidas habido habidos habiendo habremos habrá habrán habrás habré habréis habría habríais habríamos
habrían habrías habéis había habíais habíamos habían habías had hadde hade han hans har has hasta have having
hay haya hayamos hayan hayas hayáis he hemos henne hennes her here herring herrings hers herself het heten
hetene hetenes hetens heter heterna hetslov him himself his hon honom how howe hube hubiera hubierais hubieran
hubieras hubieron hubiese hubieseis hubiesen hubieses hubimos hubiste hubisteis hubiéramos hubiésemos hubo hur
hva hvem hver hvilken hvis hvor hvordan hvorfor här i ible ibles ic ica ical icas icate iciti icke ico icos id
ida idad idades idas idl idly ido idos ie ied iendo ier iera ierais ieran ieras ieron ies iese ieseis iesen
ieses iez if ifs ig ikke il imiento imientos imos in ing ingen ingly inn innen inning innings inom inte into
ion ions iqU iqUe iqUes ir ira iraIent irai irais irait iras iremos irent irez iriez irions irons iront irá
irán irás iré iréis iría iríais iríamos irían irías is ism isme ismes ismo ismos issaIent issais issait issant
issante issantes issants isse issement issements issent isses issez issiez issions issons ista istas iste
isteis istes it iti its itself ité ités iv iva ivas ive iveness ives iviti ivo ivos iz ization ize izer ièr
ière iéndo iéramos iésemos ió j jag je ju just kan kt kunde kunne l la lage lang las le leg les less lessli
leur li lie lig lik like lo log logie logies logía logías los lov lui ly lying lös löst m ma mais makt man
mange me med meg meget mellan men mens ment mente ments mer mes mest mi mig min mina mis mitt mm moi mon more
most mot mucho muchos muy my mycket mye myself más må måte même mí mía mías mío míos n nada navn ne nei ness
news ni nn no nor nos nosotras nosotros not notre nous now nu nuestra nuestras nuestro nuestros ny när nå
någon något några når o och of off og ogi også om on once onli only onn ont opp or orna ornas os osa osas oso
osos oss other otra otras otro otros ou our ours ourselves ous ousli ousness out outing outings over own par
para part pas pero poco por porque pour pp proceed proceeded proceeding proceeds punkt på q qu que qui quien
quienes qué rett riktig rr s sa same samma samme sant se sea seamos sean seas sedan sela selas selo selos
sentid sentida sentidas sentido sentidos sera serai seraient serais serait seras seremos serez seriez serions
serons seront será serán serás seré seréis sería seríais seríamos serían serías ses seáis she should si siden
siente sig sin sina singl singly sintiendo sist sitta själv ski skies skis skulle sky slik slov slutt so sobre
soient sois soit som some sommes somos son sont soy soyez soyons special ss sses start stille strings su
succeed succeeded succeeding succeeds such suis sur sus suya suyas suyo suyos så sådan sådana sådant sí t ta
también tanto tap te tendremos tendrá tendrán tendrás tendré tendréis tendría tendríais tendríamos tendrían
tendrías tened tenemos tenga tengamos tengan tengas tengo tengáis tenida tenidas tenido tenidos teniendo
tenéis tenía teníais teníamos tenían tenías tes than that the their theirs them themselves then there these
they this those through ti tid tie tiene tienen tienes til tilbake till tilstand tion tional to todo todos toi
ton too tt tu tus tuve tuviera tuvierais tuvieran tuvieras tuvieron tuviese tuvieseis tuviesen tuvieses
tuvimos tuviste tuvisteis tuviéramos tuviésemos tuvo tuya tuyas tuyo tuyos tying tú u uciones ución ugli ugly
un una under une uno unos until up upp us usion usions ut utan uten ution utions vad var vara varför varit
varje vars vart ved vem verdi very vi vid vil vilka vilkas vilken vilket ville vite vos vosostras vosostros
votre voudrion vous vt vuestra vuestras vuestro vuestros vår våra våre vårt was we were what when where which
while who whom why will with y ya yais yamos yan yas ye yen yendo yeron yes yo you your yours yourself
yourselves yó à á ábamos áis ándo ár áramos ásemos áéíóú âmes ât âtes än är ärade å åt ç èrent é ée ées éis él
ér éramos és étaient étais était étant étante étantes étants étiez étions été étée étées étés êtes ë í ía íais
íamos ían ías ír ís îmes ît îtes ó över а аеиоуыэюя ам ами ах ая без более больше будет будто бы был была были
было быть в вам вас вдруг ведь во вот впрочем все всегда всего всех всю вш вши вшись вы где да даже два для до
другой е ев его ее еи ей ейте ейш ейше ем ему ен ена ено ены если есть ет ете ешь еще ею ж же за зачем здесь и
ив ивш ивши ившись ие ией ием из ии ий ил ила или ило им ими иногда ит ите ить их ишь ию ия иям иями иях й йте
к как какая какой когда конечно кто куда л ла ли ло лучше между меня мне много может можно мой моя мы н на над
надо наконец нас не него нее ней нельзя нет ни нибудь никогда ним них ничего нн нно но ну ны о об ов ого один
ое ой ом ому он она они опять ост ость от ою перед по под после потом потому почти при про раз разве с сам
свою себе себя сейчас со совсем сь ся так такой там тебя тем теперь то тогда того тоже только том тот три тут
ты ть у ует уж уже уй уйте ую уют ующ хорошо хоть чего чем через что чтоб чтобы чуть щ ы ыв ывш ывши ывшись ые
ый ыл ыла ыли ыло ым ыми ыт ыть ых ь ье ью ья эти этого этой этом этот эту ю ют ющ юю я ям ями ят ях яя
`)
