"""Frequent words of the languages (function words, mostly), for tools/vocabulary.py."""
MORE = {
    'en': "another upon already shall etc via anything everything something nothing anyone everyone someone nobody anybody everybody somebody ourselves themselves yourself himself herself itself myself yours hers theirs ours am being having doing under over above below before after again further once here there through during against between both few more same such very down up out off now until don doesn isn aren wasn weren hasn haven hadn won wouldn shouldn couldn mustn needn shan mightn ain ll ve re t s d m o y ma don't doesn't isn't aren't wasn't weren't hasn't haven't hadn't won't wouldn't shouldn't couldn't mustn't can't cannot could've i'm you're he's she's it's we're they're i've you've we've they've i'll you'll he'll she'll we'll they'll i'd you'd he'd she'd we'd they'd that's there's here's what's who's where's when's how's let's ok okay yes please thanks thank hello hi oh ah hmm wow well really quite much many lot lots still though although whether unless whereas whereby wherein hereby herein hence thus therefore moreover furthermore nevertheless nonetheless meanwhile afterwards beforehand elsewhere somewhere anywhere everywhere nowhere whoever whatever whichever whenever wherever whose whence thence together toward towards within without throughout beside besides beyond behind along among amongst around about across near next per plus minus except despite instead indeed perhaps maybe probably usually often sometimes seldom rarely always one two three first second last new old www http https com html org href edu example test lorem ipsum got get gets getting go goes going gone went come comes came make makes made take takes took see sees saw seen know knows knew known want use used uses using seem seems seemed need needs needed try tried tries keep kept let put set said tell told ask asked a's ain't anyhow anyway apart appear appreciate appropriate aside asking associated available away awfully became become becomes becoming believe best better brief c'mon c's certain certainly changes clearly co concerning consequently consider considering contain containing contains corresponding course currently definitely described different done downwards eg eight enough entirely especially et exactly far fifth five followed following follows former formerly forth four greetings happens hardly hopefully howbeit ie ignored immediate inasmuch inc indicate indicated indicates inner insofar inward lately latter latterly lest liked likely little look looking looks ltd mainly mean merely mostly name namely nd nearly necessary nine non none noone normally novel obviously ones onto otherwise outside overall particular particularly placed possible presumably provides que qv rd reasonably regarding regardless regards relatively respectively right saying secondly seeing self selves sensible sent serious seriously seven several six specified specify specifying sub sup sure th thanx thats thereafter thereby therein theres thereupon think third thorough thoroughly thru truly twice un unfortunately unlikely useful value various viz vs way welcome whereafter whereupon whither willing wish wonder zero able a b c e f g h i j k l n p q r u v w x z",
    'de': 'schon eigentlich immer wieder mehr heute jetzt bereits etwa sowie dabei davon dazu daran darauf daraus darin darüber darum damit dafür dagegen danach davor dazwischen deshalb deswegen trotzdem jedoch allerdings außerdem zudem ebenso ebenfalls sogar vielleicht wahrscheinlich natürlich sicher ja nein doch mal eben halt gar ganz viel viele wenig wenige mehrere einige etliche beide beiden beim zum zur vom ins ans aufs fürs durchs ums übers unters hinterm vorm seit während wegen trotz statt anstatt außer gemäß laut mittels samt neben jenseits innerhalb außerhalb oberhalb unterhalb darf dürfen kann können könnte konnte mag mögen möchte muss muß müssen mußte musste soll sollen sollte will wollen wollte wird werden wurde wurden würde worden geworden gewesen gehabt hätte hätten wäre wären sei seien bist seid haben habe hast habt hatte hatten macht machen gemacht gibt geben gab gegeben geht gehen ging gegangen kommt kommen kam gekommen sagt sagen sagte gesagt lassen lässt ließ tun tut tat getan ab ach acht achte achten achter achtes ag allein aller alles allgemeinen ander andere anderen anderm andern anders au ausser ausserdem bald bei beispiel bekannt besonders besser besten bin bis bisher dahin daher dann dasein daselbst dasselbe dem demgegenüber demgemäß demselben demzufolge den denen denn derjenige derselbe dies diese diejenigen dritte drei drin durchaus durfte eigen eigene einander einer einmal eins elf ende endlich entweder er ernst erst erste erstens früher fünf für ganze gegen gegenüber genug gerade gern gewiss gleich gross groß grosse große gut gute heisst her herein herum hin hinter hoch ihnen ihr irgend jahr jahre jahren je jede jedem jeden jeder jedermann jedes jemand jemandem jene jenem jenen jener jenes kein keine klein kurz lang lange leicht leider letzte lieber los man manche mann mein mensch menschen mich mir mit mitte mittel mochte morgen nach nachdem nahm nebst neue neun neunte nicht nichts nie niemand noch nun nur oben oft ohne ordnung recht rechte richtig rund sache satt schlecht schluss sechs sehr sein seitdem sieben solang solche soweit sowohl später tag tage tagen teil tel tief überhaupt übrigens uhr um und unter usw vergangenen vier von vor wahr wann war warum was weiß weit weiter weitere weiteren weiteres welche wem wen wenigstens wenn wer wessen wie wieso wohl wo woher wohin zehn zeit zu zuerst zugleich zunächst zurück zusammen zwanzig zwar zwei zwischen zwölf',
    'fr': "donc alors aussi ainsi très plus moins bien mal peu beaucoup trop assez encore toujours jamais souvent parfois déjà bientôt maintenant aujourd'hui hier demain ici là-bas dedans dehors dessus dessous devant derrière avant après pendant depuis jusque vers chez contre entre parmi selon malgré sauf sous sans hors près loin comme comment pourquoi quand combien où quel quelle quels quelles lequel laquelle lesquels lesquelles dont celui celle ceux celles celui-ci ceci cela ça c'est qu'il qu'elle d'un d'une l'on n'est s'il j'ai lorsque puisque quoique bien-sûr afin car or ni mais ou et si oui non peut-être voici voilà tout toute tous toutes chaque plusieurs quelque quelques certains certaines autre autres même mêmes tel telle tels telles aucun aucune nul nulle rien personne quelqu'un chacun chacune faire fait fais font dit dire va aller vais vont vient venir peut peux peuvent pouvoir pu doit dois doivent devoir dû veut veux veulent vouloir sait savoir voir vu est-ce a-t-il abord absolument ah ai aie ailleurs allo allons allô anterieur apres as attendu auparavant auquel aura auront aussitôt autant autrefois autrement auxquels avoir bah bas basee bat beau bigre boum brrr ce cent cependant certes cinq cinquante clac concernant crac da debout delà des désormais deux deuxième différent différents divers dix dring duquel effet égale également eh elles-mêmes enfin envers environ étaient étant être eu euh eux-mêmes excepté extenso extérieur façon fi flac floc gens ha haut hé hem hep hi ho holà hop hormis hou hue hui huit hum hurrah importe jusqu juste lors longtemps lui-même maint merci mien mille mince miens moi moi-même moindres moyennant na neuf néanmoins nôtre nous-mêmes o oh ohé olé ollé ouias oust ouste outre paf pan parce parle parlent particulier passé pff pire plein plouf plutôt possible pouah première premièrement proche psitt quant quatorze quatre quatrième quelconque quinze quiconque quoi rare rarement relativement restant sein sept seul seulement sien siens sinon six soi soit soixante stop suivant suffit superpose surtout tac tant tardive tellement tenant tenir tente tic tiens toc toi trente trois troisième tsoin un une unique uniformement vas vé vif vlan vôtre vous-mêmes zut",
    'es': 'aún así además ahora aquí allí ahí allá acá antes después luego pronto tarde siempre nunca jamás también tampoco sí no quizá quizás tal tan tanto mucho mucha muchos muchas poco poca pocos pocas más menos muy bien mal casi sólo solo todo toda todos todas cada cualquier cualquiera algún alguna algunos algunas ningún ninguna nadie nada algo alguien otro otra otros otras mismo misma mismos mismas cuál cuáles qué quién quiénes cuándo dónde cómo cuánto cuánta cuántos porqué porque pues aunque mientras según sino siquiera durante mediante hacia hasta desde entre sobre bajo ante contra tras sin con para por pero hace hacer hizo hecho dice decir dijo puede pueden poder pudo debe deben deber va van ir fue ser estar siendo sido tener tiene hay haber había hubo habrá aquel aquella aquellos aquellas aquello esto eso acuerdo adelante ademas agregó ahi al añadió aproximadamente aseguró ayer breve buen buena buenas bueno buenos cierta ciertas cierto ciertos cinco comentó conmigo conocer conseguimos conseguir considera consigo consta creo cuanta da dado dan dar debido dejó del demás dentro deprisa despacio detras dia dias diferente diferentes dijeron dio donde dos embargo empleo encima encuentra enfrente enseguida entonces era eramos estado estados excepto existe existen explicó expresó final fin general gran grandes habla hablan haya he hemos hicieron horas hoy igual incluso indicó informo informó intenta intentar junto lado largo lejos llegó lleva llevar lugar manera manifestó mayor medio mejor mencionó menudo mio mia modo momento nosotras nueva nuevas nuevo nuevos ocho parece parte partir pasada pasado peor pesar podemos podrá podría poner posible primer primera primero principalmente propia propias propio próximo próximos pueda puedo qeu raras realizado realizar realmente repente respecto sabe salvo segunda segundo seis señaló sera será serán sería siete sigue siguiente sola solamente solas soyos supuesto temprano tenido tercera tercero todavia todavía total trabaja trabajo trata través tres última últimas ultimo último últimos usa usar uso vamos varias varios veces ver verdad verdadera vez voy ya yo',
    'it': "ecco già ancora sempre mai spesso oggi ieri domani ora adesso poi prima dopo qui qua lì là sopra sotto dentro fuori davanti dietro vicino lontano molto molta molti molte poco poca pochi poche tanto tanta tanti tante troppo così bene male meno assai quasi forse sì anche pure neanche neppure nemmeno né oppure ovvero cioè infatti quindi dunque perciò pertanto però tuttavia eppure anzi mentre finché affinché benché sebbene poiché siccome giacché purché qualora quando dove come quanto quale quali chi cosa che perché ogni ognuno ciascuno qualche qualcuno qualcosa nessuno nessuna niente nulla altro altra altri altre stesso stessa stessi stesse tale tali certo certa certi certe essere stato stati avere avuto fare fatto fa dire detto dice può possono potere potuto deve devono dovere dovuto vuole vogliono volere voluto va vanno andare andato viene venire venuto verso circa attraverso durante mediante presso secondo senza tranne tra fra oltre entro lungo contro c'è cos'è com'è dov'è un'altra l'altro all'inizio dell'anno abbastanza accidenti affatto ah ahimè alcuna alcuni alcuno allora almeno altrimenti altrui ampio anno anni appena avanti basta ben bensì brava bravo breve buono caso cento che'l chiunque ciò cima cinque colei coloro colui consiglio cortesia dappertutto diventa diventare dieci due ecc ed egli ella entrambi esempio esso essa esse essi eventualmente finalmente fino generale gente giorno giorni giù gli governo grande grazie gruppo improvviso inc indietro insieme intanto intorno invece inoltre inizio laggiù lasciato lato lavoro lui lei magari maggior maggioranza malgrado medesimo meglio mezzo mila minimi mio moltissimo nei nella nessun noi nome nondimeno nonostante nonsia nove nuovo ore otto paese parecchi parecchio parte partendo peccato peggio per percio perfino pero persino persone piedi pieno più piuttosto pochissimo possa possano posteriore primo principalmente probabile promesso proprio prossimo qualcuna qualunque quarto quattro quello quest' rispetto salvo scola sei seguente seguito semplice sette sia siamo solito solo soltanto sta stai stando stata successivamente subito sugli sulla tardi tempo terzo torino tre trovato ultimo uno uomo varia vario veramente vi via visto vita voi volta volte",
    'pt': 'aqui ali lá agora hoje ontem amanhã sempre nunca jamais talvez ainda já logo depois antes durante enquanto porque porquê pois portanto contudo porém todavia entretanto assim bem mal muito muita muitos muitas pouco pouca poucos poucas mais menos tão tanto quanto qual quais quem onde como quando cada todo toda todos todas algum alguma alguns algumas nenhum nenhuma ninguém nada algo alguém outro outra outros outras mesmo mesma mesmos mesmas próprio própria certo certa sim não também só apenas até desde sob sobre entre contra perante sem com para por após trás acima abaixo dentro fora perto longe fazer faz fez feito dizer diz disse pode podem poder pôde deve devem dever vai vão ir vem vir ser sendo sido estar ter tendo tido haver havia houve coisa dia dias vez vezes ano anos grande primeiro último novo bom boa apoia apontar aquele àquele àquela atrás através baixo breve caminho catorze cedo cento certamente cima cinco comprido conhecido corrente custa dar debaixo demais desligado deste dez dezanove dezasseis dezassete dezoito direita doze duas dúvida estado este eventual fará favor fazeis fazem fazemos fazes fim final foi forma geral hora horas iniciar inicio irá lado ligado local lugar maior maioria maiorias meio menor meses mês meu momento nível nome nove novas número obra obrigada obrigado oitava oito onze parece parte pegar pessoas põe ponto possível possivelmente posso povo próxima próximo puderam quarta quarto quatro quê questão quieto quinta quinto quinze relação sabe saber segunda segundo sei seis sete sexta sexto sistema somente sou tarde tempo tentar tentaram tente tentei terceira terceiro tipo trabalhar trabalho três treze um vais valor vários vens ver verdade verdadeiro você vocês vindo vinte zero',
    'ru': 'ещё уже также тоже очень только даже лишь именно просто почти совсем вовсе всегда никогда иногда часто редко сейчас теперь тогда потом затем сегодня вчера завтра здесь тут там туда сюда оттуда отсюда везде нигде где куда откуда когда почему зачем как какой какая какое какие который которая которое которые чей чья что чтобы кто кого кому кем чего чему чем это этот эта эти того тому тем тех те такой такая такие сам сама само сами себя себе собой свой своя своё свои весь вся всё все каждый каждая любой другой другая другие иной один одна одно одни два три первый между через около вокруг против среди вместо кроме ради сквозь перед передо над под подо при про для без безо до из изо к ко о об обо от ото по с со у в во на за и а но да или либо то ни если хотя пока пусть будто словно разве неужели ведь вот вон же ли бы б был была было были быть есть буду будет будут мог может могут можно нельзя надо нужно должен должна должны хотел хочет сказал говорит более менее больше меньше много мало несколько столько сколько лучше хуже нет конечно наверное возможно например вообще однако поэтому потому причём притом зато нибудь либо-то какой-то кто-то что-то где-то кое-что алло близко бывает бывь важная важное важные важный вверх вдали вниз внизу восемнадцать восемь времени время всем всеми всему всех всею всю всюду второй выше год года году давно далеко дальше даром двадцать две двенадцать день десять довольно долго ею занят иметь имя кругом лет люб мимо мира мне мной мною могу мож мои мой мочь назад наиболее наконец нам нами нас начала наш наша наше наши недавно недалеко некоторый непрерывно нередко низко ниже никуда ничего новый обычно одиннадцать одинадцать означает опять отовсюду пожалуйста позже пор пора после посреди прекрасно пятнадцать пять раз рано раньше рядом самим самими самих самого самой самом самому саму семь семнадцать сказать снова спасибо стал суть твой твоя тебе тебя тобой тобою третий тринадцать ты тысяч уметь хорошо хотеть хоть хочешь четвертый четыре четырнадцать чуть шестнадцать шесть ту эту этой этом этому этих этими я',
    'fi': 'jo vielä myös aina koskaan usein joskus nyt sitten heti pian tänään eilen huomenna täällä siellä tuolla tässä siinä tuossa missä mistä mihin minne milloin miksi miten kuinka koska jos vaikka että kun kuin mutta tai eli sekä ja ei en et emme ette eivät älä on oli olla ollut olen olet olemme olette ovat olin olit olivat voi voivat täytyy pitää pitäisi saa saada tulee tulla menee mennä tehdä tekee sanoa sanoi kaikki jokainen joku jokin mikään kukaan muu muut toinen toiset itse sama samat paljon vähän enemmän vähemmän hyvin huonosti melkein ehkä varmasti kyllä niin näin noin sen siis siksi kuitenkin silti edes vain ainakin ilman kanssa ennen jälkeen aikana välillä päällä alla vieressä takana edessä sisällä ulkona läpi kohti vastaan mukaan varten aikoina ainoastaan aiemmin alas alemmas alkuisin alkuun aloitamme aloitan aloitat ansiosta antaa antamatta antoi apu asia asiaa avuksi edelle edelleen eikä ellei eniten ensi ensin entinen entä eri erittäin esi esiin esimerkiksi etu-alalla haikki halua haluaa hei heitä hetkellä hoikein huolimatta hyvä hyvää hyviä ihan ilmeisesti itseään jokaisen jolla jonka jonkin jonne jopa joskaan jota jotain joten jotka jotta juuri kahdeksan kahden kaksi kaukana kautta kauas kerran kesken keskellä kiitos koko kokonaan kolme kuka kukin kumpainen kumpi kumpikaan kuten kuuden kuusi kuutta kyse liian liki loput lopuksi luona lähekkäin lähellä läheltä mahdollisimman mahdollista me meidän melko milloinkaan minulle moi moni myöhemmin naiden neljä nopeasti nuo nähden onko oikea oikealla omaa osa otto paikoittain pikku puolestaan päin riittävä saakka se seitsemän seuraava suoraan suuri suuntaan taas taemmas takaisin tarpeeksi tavalla toki tosin tuo tuskin tykö täysin uudelleen uudestaan usea vaan vai vaihe vasen vasta vastakkain verran vierekkäin viime viisi voimme yhdeksän yksi yleensä yli ylös ympäri',
    'ro': 'astăzi acum aici acolo atunci când cum unde cine cât câtă câți câte care ce cel cea cei cele fiecare oricare oricine orice nimeni nimic ceva cineva altul alta alții altele același aceeași mult multă mulți multe puțin puțină puțini puține mai foarte prea tot toată toți toate doar numai chiar încă deja deci astfel așa totuși însă dar ori sau nici fie dacă deși fiindcă pentru că întrucât încât precum după înainte înaintea lângă între dintre sub peste pe la cu fără spre până despre prin din în de contra împotriva face fac făcut spune spus poate pot putea trebuie vrea vreau merge vine este sunt era erau fost fi aibă are au avea da nu mereu niciodată adesea uneori ieri mâine acea aceasta această aceea acei aceia acel acela acele acelea acest acesta aceste acestea aceşti aceştia ai aia al ăla ale alea ălea altceva altcineva am ar aş aşadar asemenea asta ăsta astea ăstea ăştia asupra aţi avem aveţi bine bucur bună ca căci cărei căror cărui către ceilalţi cinci cînd cîţi conform datorită dată dau de-a deasupra decât deoarece departe deşi dinaintea dintr doi doilea două drept el ele eram eu făra fii fim fiţi frumos graţie halbă iar îi îl îmi inainte înapoi îndeaproape îţi lîngă lor lui mă mea mei mele meu mie mîine mine mod mulţi mulţumesc ne nevoie nicăieri nişte noastră noi nostru noştri nouă oricând oricât orişicum patra patru patrulea pic poimâine prima primul puţin rog s-ar sa să săi sale şapte şase său se şi sînt sîntem sînteţi spate sute ta tăi tale tău te ţi ţie timp tine totuşi trei treia treilea tu un una undeva unei uneia unele unii unor unora unu unui unuia unul vă vi voastră voi vom vor vostru voştri vouă vreme vreo vreun zece zero zi zice',
    'sv': 'redan ännu fortfarande dock därmed därför eftersom ifall huruvida samt även bland igenom inom utom utanför innanför ovanför nedanför omkring enligt trots istället dessutom åtminstone dels inte icke ej någon något några någonting ingenting ingen inget inga annan annat andra själv själva sådan sådant sådana samma varje varenda var vart vad vars vilket vilka hurdan hen denna dessa den där dit hit hem bort borta hemma ute inne uppe nere framme bara endast blott just precis ganska rätt alldeles helt nästan knappt mycket många mer mest mindre minst få färre bättre bäst sämre sämst gör göra gjorde gjort säger sade sagt går gick gått får fick fått kan kunde ska skall skulle vill ville måste bör borde är vara varit blir bli blev blivit har ha hade haft aderton adjö aldrig allas allt alltså andras annars arton åtta åttio av bakom bådas både behöva beslut beslutat bra bruk dag dagar dagarna därtill delen deras dess det dig din dina ditt du efter eller elfte elva emot enkel enkelt er ert ett fast fel femte femtio femton fin finnas finns fjärde fjorton fler flera flesta följande för före förlåt först fram fyra fyrtio ge genast genom ger god goda godare gott hans heller hellre henne hennes hur hundra höger i-dag ibland idag igår imorgon in jag ju jämfört kanske knappast kommer kunna kvar länge långsam lätt legat ligga likställd lilla lite man med mellan min mittemot mot nå när nittio nio nödvändig nog noll nr nu nummer ofta oftast olika om oss över på rakt sätt säga sex sist sista sjutton sjätte sju snart som stor stort större tack tidig tidigare tills till tio tjugo tolv tre tredje trettio två under ut utan vänster vår varför varifrån varken vem verkligen vi vid viktig viktigt',
    'da': 'allerede endnu stadig dog derfor derved derfra dertil hvis såfremt ifald samt også blandt igennem inden udenfor indenfor ovenover nedenunder omkring ifølge trods i stedet desuden mindst dels ikke ej nogen noget nogle ingenting intet anden andet andre selv selve sådan sådant sådanne samme hver hvert enhver hvem hvad hvilken hvilket hvilke hvordan hvornår hvorfor hvorhen hvorfra denne dette disse den der derhen herhen hjem bort borte hjemme ude inde oppe nede fremme bare blot netop lige ganske helt næsten knap meget mange mere mest mindre få færre bedre bedst værre værst gør gøre gjorde gjort siger sagde sagt går gik gået får fik fået kan kunne skal skulle vil ville må måtte bør burde er være var været bliver blive blev blevet har have havde haft ad af aften alt alle altid andres at begge da de dem dens deres det dig din dine dit du efter eller en end ene eneste et fem fire flere fleste for fordi forrige fra før først gennem giver god godt ham han hans heller hen hende hendes her hos hun hvor hvorvidt højre igår i-dag ja jeg jer jeres jo kom kommer lad langt lidt ligesom måske man med men mellem mig min mine mit mod nej ni nok nu næste når ofte og om op os otte over på samtidig se seks ser ses sig sin sine sit snart som stor store syv så ti til tidligere to tre ud uden under undtagen ved vi venstre vore vor vær øvrigt',
    'no': 'allerede enda fremdeles derfor dermed dersom hvis samt også blant gjennom innen utenfor innenfor rundt ifølge tross dessuten minst dels ikke ei ikkje noen noe nokon noko nokre ingenting intet annen annet andre selv selve sjølv slik slikt slike samme hver hvert enhver hvem hva hvilken hvilket hvilke hvordan hvorfor hvor når denne dette disse den der dit hit hjem bort borte hjemme ute inne oppe nede framme fremme bare kun nettopp ganske helt nesten knapt mye mange mer mest mindre færre bedre best verre verst gjør gjøre gjorde gjort sier sa sagt går gikk gått får fikk fått kan kunne skal skulle vil ville må måtte bør burde er være var vært blir bli ble blitt har ha hadde hatt alltid aldri alt begge både då eg ein eit eitt elles ettar hoe honom hjå ho hoss hossen hvi inkje innan kva kvar kvarhelst kven kvi kvifor me medan mykje mykke meget nå ned no nokka nokor nu opp og sia sidan siden sist sitt skyldig so somt store tilbake tid truly um upp ut uten verte vi vite vore vors vort ønske',
    'du': 'al alsnog reeds nog steeds toch daarom daardoor daarmee daarna daarvoor indien mits tenzij evenals ook tussen tijdens binnen buiten boven beneden rondom volgens ondanks plaats bovendien minstens deels niet geen iets niets iemand niemand ander andere anderen zelf zulke zulk dezelfde hetzelfde ieder iedere elk elke wiens wier hoeveel waarheen waarvandaan deze dit die dat daarheen hierheen weg thuis slechts enkel juist precies vrij heel geheel bijna nauwelijks veel vele meer meest minder minst beter best slechter doet doen deed gedaan zegt zeggen zei gezegd gaat gaan ging gegaan krijgt krijgen kreeg kan kon kunt zal zou zouden wil wilde moet moest mag mocht is zijn was waren geweest wordt worden werd werden geworden heeft hebben had hadden gehad aan aangaande aangezien achter achterna afgelopen aldaar aldus alhoewel alias allebei alleen alles als anders anderzijds behalve behoudens ben beide beiden bent bepaald bij bijvoorbeeld binnenin bovenal bovengenoemd bovenstaand bovenvermeld daar daarin daarnet daarop daarvanlangs de dikwijls door doorgaand dus echter eer eerdat eerder eerlang eerst en enig enigszins er erdoor even eveneens evenwel gauw gedurende gekund geleden gelijk gemoeten gemogen gewoon gewoonweg haar hare heb hebt hem hen het hierbeneden hierboven hij hoe hoewel hun hunne ik ikzelf in inmiddels inzake jezelf jij jijzelf jou jouw jouwe jullie klaar konden krachtens kunnen later liever maar met mezelf mij mijn mijnent mijner mijzelf misschien mochten moesten moeten mogen na naar nadat net noch nogal nu of ofschoon om omdat omhoog omlaag omstreeks omtrent omver onder ondertussen ongeveer ons onszelf onze op opnieuw opzij over overeind overigens pas rond sedert sinds sindsdien spoedig sommige tamelijk te tegen terwijl toe toen toenmaals toenmalig tot totdat uit uitgezonderd vaak van vandaan vanuit vanwege veeleer verder vervolgens vol voor vooraf vooral vooralsnog voorbij voordat voordezen voordien voorheen voorop vooruit vroeg waar waarom wanneer want wat weer wegens wel weldra welk welke wie wij wijzelf ze zelfs zichzelf zij zo zodra zonder zowat zullen',
    'hu': 'már még is sem ha akkor amikor ahol ahogy ahogyan aki akik ami amik amely amelyek amelyeket amelyet amelynek amíg annak arra arról az azért azok azon azonban azt azzal azután bár be belül benne csak cikk cikkek cikkeket de e eddig egész egy egyes egyetlen egyik egyre ekkor el elég ellen elő először előtt első én éppen ebben ehhez emilyen ennek erre ez ezek ezen ezért ezt ezzel fel felé hanem hiszen hogy hogyan igen így illetve ill ilyen ilyenkor ison ismét itt jó jól jobban kell kellett keresztül keressünk ki kívül között közül legalább lehet lehetett legyen lenne lenni lesz lett maga magát majd mellett mert mely melyek meg mi miért mint mintha minden mindenki mindenkit mindent mindig mindenesetre mit míg mivel most nagy nagyobb nagyon ne néha neki nekünk nélkül néhány nem nincs olyan ott össze ő ők őket pedig persze rá s saját számára szét szinte talán tehát teljes tovább több túl ugyan ugyanis új újabb újra után utána utolsó vagy vagyis valaki valahol valami valamint való van vannak volt voltam voltak voltunk vissza vele viszont volna aligha alig állítólag általában bármely bármi ezután felett fölött fölül helyett hozzá hátha kevésbé kicsit később körül közben közé legtöbb lévén másik mások mennyi mikor mily milyen nagyjából netán noha odafent rajta rendkívül rögtön se semmi senki sok sokkal szerint szemben teljesen tényleg tőle túlságosan valóban vajon végre végül',
    'tr': 'acaba altmış altı ama ancak arada artık asla aslında ayrıca az bana bazen bazı bazıları belki ben benden beni benim beri beş bile bilhassa bin bir birçoğu birçok biri birisi birkaç birşey biz bizden bize bizi bizim böyle böylece bu buna bunda bundan bunlar bunları bunların bunu bunun burada bütün çoğu çoğunu çok çünkü da daha dahi dan de defa değil diğer diğeri diğerleri diye doksan dokuz dolayı dolayısıyla dört e edecek eden ederek edilecek ediliyor edilmesi ediyor eğer elbette elli en etmesi etti ettiği ettiğini fakat falan filan gene gereği gerek gibi göre hala halde halen hangi hangisi hani hatta hem henüz hep hepsi her herhangi herkes herkese herkesi herkesin hiç hiçbir hiçbiri i ı için içinde iki ile ilgili ise işte itibaren itibariyle kaç kaçı kadar karşın kendi kendilerine kendine kendini kendisi kendisine kendisini kez ki kim kime kimi kimin kimisi kimse kırk madem mi mı milyar milyon mu mü nasıl ne neden nedenle nerde nerede nereye neyse niçin nin nın niye nun nün o öbür olan olarak oldu olduğu olduğunu olduklarını olmadı olmadığı olmak olması olmayan olmaz olsa olsun olup olur olursa oluyor on ön ona önce ondan onlar onlara onlardan onları onların onu onun orada öte ötürü otuz öyle oysa pek rağmen sana sanki şayet şekilde sekiz seksen sen senden seni senin şey şeyden şeye şeyi şeyler şimdi siz sizden size sizi sizin sonra şöyle şu şuna şunları şunu ta tabii tam tamam tamamen tarafından trilyon tüm tümü u ü üç un ün üzere var vardı ve veya ya yani yapacak yapılan yapılması yapıyor yapmak yaptı yaptığı yaptığını yaptıkları ye yedi yerine yetmiş yi yı yine yirmi yoksa yu yüz zaten zira bay bayan evet hayır lütfen olabilir peki üstelik',
    'ar': 'أيضا أيضاً الآن هنا هناك متى أين كيف لماذا ماذا من ما مهما كلما حيث حين حينما بينما عندما قبل بعد فوق تحت أمام خلف وراء بين خلال منذ حتى إلى على عن في مع ضد دون بدون سوى غير إلا أو أم بل لكن لأن كي لكي إذا لو لولا ليت لعل إن أن كان كانت يكون تكون ليس ليست لم لن لا نعم كلا بلى هو هي هم هن أنا نحن أنت أنتم هذا هذه ذلك تلك هؤلاء أولئك الذي التي الذين اللاتي كل بعض جميع كلتا أي أحد شيء قد سوف سيكون جدا فقط أكثر أقل مثل كما كذلك هكذا إذن ثم أول آخر اليوم أمس غدا ابن أب أخ ضمن تم وقد وكان وفي ومن وهو وهي ولم ولا التى الذى وقال وقالت قال قالت به بها له لها عليه عليها منه منها فيه فيها إليه إليها إنه أنها أنه لدى عند وأن وإن فإن يوم عام سنة مليون واحد اثنان ثلاثة أربعة خمسة ستة سبعة ثمانية تسعة عشرة آه آها أف أمين أوه إيه بخ بس تعسا حذار رويدك سرعان شتان صه طاق عدس كخ مكانك هاك هيا هيت واها وي حاشا خلا عدا كأن كأنما كم كيت ذا ذات ذاك ذان ذي تان تي ته تين اللذان اللتان اللواتي أينما حيثما أنى أيان ريث لات لاسيما لست لسنا مازال مابرح ماانفك مافتئ أصبح أضحى أمسى بات ظل صار',
    'ko': '그리고 그래서 그런데 그러면 그러므로 그렇지만 하지만 또는 또 및 이 그 저 것 수 등 들 년 월 일 나 너 우리 저희 당신 그녀 그들 누가 무엇을 어느 이것 그것 저것 여기서 거기 거기서 이런 그런 저런 이렇게 그렇게 저렇게 왜냐하면 때문에 위해 위하여 대해 대하여 대한 통하여 따라 의해 의하여 부터 까지 에서 에게 으로 로 와 과 을 를 은 는 이다 있다 없다 하다 되다 아니다 같다 않다 매우 아주 정말 너무 잘 못 안 더욱 가장 모두 모든 각 각각 여러 많이 조금 이미 아직 벌써 지금 오늘 어제 내일 항상 자주 가끔 결코 만약 만일 비록 아니면 혹은 즉 예를 들면 한편 다만 단지 오히려 게다가 마치 바로 별로 아이고 어찌 언제 얼마나 얼마 의 가 도 만 에 하고 이라면 인젠 젠장 하나 둘 셋 넷 다섯 여섯 일곱 여덟 아홉 열',
}
